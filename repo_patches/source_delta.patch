From ee862da1db5da57aeeef3be43b58ac4d046c465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 01/30] fix: keep weights aligned with values in
 choose_without_replacement

---
 src/dynamicprompts/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index ca56efa..5471c49 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -94,6 +94,9 @@ def choose_without_replacement(
         for _ in range(num_choices):
             chosen = rand.choices(values, weights=weights, k=1)[0]
             chosen_values.append(chosen)
-            weights.remove(weights[values.index(chosen)])
-            values.remove(chosen)
+            # Remove the weight that belongs to the chosen value
+            # (not just the first weight that happens to equal it).
+            index = values.index(chosen)
+            del weights[index]
+            del values[index]
         return chosen_values
-- 
2.43.0


From 37be31ce7bdb86baf0190e1eba52e09814efd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 02/30] fix: honour a zero lower bound for single-option
 variants in random sampling

---
 src/dynamicprompts/samplers/random.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index a2b9550..afdad0f 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -79,9 +79,15 @@ class RandomSampler(Sampler):
 
                 yield from self._get_variant(wildcard_variant, context)
             else:
-                yield from context.generator_from_command(
-                    command.values[0],
-                )
+                command = command.adjust_range()
+                option_gen = context.generator_from_command(command.values[0])
+                while command.min_bound == 0:
+                    # The single option may be left out altogether
+                    if self._get_variant_num_choices(command, context):
+                        yield next(option_gen)
+                    else:
+                        yield SamplingResult(text="")
+                yield from option_gen
             return
         while True:
             command = command.adjust_range()
-- 
2.43.0


From d1fe7e48cd43c6fc93d77e704d39d7ca0bb10fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 03/30] fix: unknown wildcards are a single alternative in
 combinatorial sampling

---
 src/dynamicprompts/samplers/combinatorial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index c62a57b..7cf43be 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -148,7 +148,8 @@ class CombinatorialSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if not values:
-            yield from get_wildcard_not_found_fallback(command, context)
+            # The fallback never ends, but it only counts as one alternative
+            yield next(get_wildcard_not_found_fallback(command, context))
             return
 
         for val in values.iterate_string_values_weighted():
-- 
2.43.0


From 709efbbfc513b766c346f67fbeddd73cbbee5830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 04/30] fix: an unknown wildcard as the only option of a
 variant falls back to its name

---
 src/dynamicprompts/samplers/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 25ec8bb..4ad94d8 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -4,6 +4,7 @@ import logging
 
 from dynamicprompts.commands import (
     Command,
+    LiteralCommand,
     VariantCommand,
     VariantOption,
     WildcardCommand,
@@ -26,13 +27,17 @@ def wildcard_to_variant(
 ) -> VariantCommand:
     wildcard = next(iter(context.sample_prompts(command.wildcard, 1))).text
     values = context.wildcard_manager.get_values(wildcard)
-    min_bound = min(min_bound, len(values))
-    max_bound = min(max_bound, len(values))
 
     variant_options = [
         VariantOption(parse(v, parser_config=context.parser_config))
         for v in values.iterate_string_values_weighted()
     ]
+    if not variant_options:
+        fallback = next(get_wildcard_not_found_fallback(command, context))
+        variant_options = [VariantOption(LiteralCommand(fallback.text))]
+
+    min_bound = min(min_bound, max(len(values), 1))
+    max_bound = min(max_bound, max(len(values), 1))
 
     wildcard_variant = VariantCommand(
         variant_options,
-- 
2.43.0


From 437aeddc7fd9c68249ba93490cba26c2abc18057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 05/30] fix: use wildcard weights as variant weights instead of
 repeating values

---
 src/dynamicprompts/samplers/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 4ad94d8..23cdc6c 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -29,8 +29,11 @@ def wildcard_to_variant(
     values = context.wildcard_manager.get_values(wildcard)
 
     variant_options = [
-        VariantOption(parse(v, parser_config=context.parser_config))
-        for v in values.iterate_string_values_weighted()
+        VariantOption(
+            parse(str(v), parser_config=context.parser_config),
+            weight=getattr(v, "weight", 1.0),
+        )
+        for v in values
     ]
     if not variant_options:
         fallback = next(get_wildcard_not_found_fallback(command, context))
-- 
2.43.0


From ade813eb64c02c4480950fb994ee1b37993323f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 06/30] fix: pass wildcard parameters when a wildcard is the
 only option of a variant

---
 src/dynamicprompts/samplers/combinatorial.py | 5 ++++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 7cf43be..01eda2b 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -119,7 +119,10 @@ class CombinatorialSampler(Sampler):
                 max_bound=variant_command.max_bound,
                 separator=variant_command.separator,
             )
-            yield from self._get_variant(wildcard_variant, context)
+            yield from self._get_variant(
+                wildcard_variant,
+                context.with_variables(wildcard_command.variables),
+            )
         else:
             variant_command = variant_command.adjust_range()
             for bound in range(
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index 090825f..af78dc0 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -73,7 +73,10 @@ class CyclicalSampler(Sampler):
                 max_bound=command.max_bound,
                 separator=command.separator,
             )
-            yield from self._get_variant(wildcard_variant, sampling_context)
+            yield from self._get_variant(
+                wildcard_variant,
+                sampling_context.with_variables(wildcard_command.variables),
+            )
         else:
             command = command.adjust_range()
 
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index afdad0f..716cf8c 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -77,7 +77,10 @@ class RandomSampler(Sampler):
                     separator=command.separator,
                 )
 
-                yield from self._get_variant(wildcard_variant, context)
+                yield from self._get_variant(
+                    wildcard_variant,
+                    context.with_variables(command.values[0].variables),
+                )
             else:
                 command = command.adjust_range()
                 option_gen = context.generator_from_command(command.values[0])
-- 
2.43.0


From a3e1e768552062ed63ea68457d6f0a53427d2c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 07/30] fix: variable assignments see the assignments before
 them

---
 src/dynamicprompts/sampling_context.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 9503e08..68d47b7 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -147,16 +147,16 @@ class SamplingContext:
         If there are no variable assignments,
         the original commands and context are returned as-is.
         """
-        new_variables: dict[str, Command] = {}
+        context = self
         new_commands = []
         for command in commands:
             if isinstance(command, VariableAssignmentCommand):
-                new_variables[command.name] = self.process_variable_assignment(command)
+                # Each assignment sees the ones before it
+                value = context.process_variable_assignment(command)
+                context = context.with_variables({command.name: value})
             else:
                 new_commands.append(command)
-        if new_variables:
-            return new_commands, self.with_variables(new_variables)
-        return (new_commands, self)
+        return (new_commands, context)
 
     def process_variable_assignment(
         self,
-- 
2.43.0


From 265a0d67a354cc18cb1aa63744316a1a3aa42c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 08/30] fix: do not draw weighted wildcard values ahead of a
 change of seed

---
 src/dynamicprompts/wildcards/values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/wildcards/values.py b/src/dynamicprompts/wildcards/values.py
index 3c37c31..fdeb610 100644
--- a/src/dynamicprompts/wildcards/values.py
+++ b/src/dynamicprompts/wildcards/values.py
@@ -115,10 +115,10 @@ class WildcardValues:
         else:
             cum_weights = self.cum_weight_values
             while True:
-                # Grab a bunch (but not too many) random values at a time,
-                # to reduce the number of calls to `choices`.
+                # Don't draw values ahead of time: the random number generator
+                # may be re-seeded between values.
                 yield from rng.choices(
                     self.string_values,
                     cum_weights=cum_weights,
-                    k=10,
+                    k=1,
                 )
-- 
2.43.0


From b62c6698d537fb8894f068891a98eb83d423b823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 09/30] fix: options that look the same are still separate
 options of a variant

---
 src/dynamicprompts/commands/variant_command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/commands/variant_command.py b/src/dynamicprompts/commands/variant_command.py
index 58c1419..faa9c67 100644
--- a/src/dynamicprompts/commands/variant_command.py
+++ b/src/dynamicprompts/commands/variant_command.py
@@ -86,7 +86,7 @@ class VariantCommand(Command):
         if k <= 0:
             yield []
         else:
-            for value in values:
-                other_values = [v for v in values if v != value]
+            for index, value in enumerate(values):
+                other_values = values[:index] + values[index + 1 :]
                 for item in self.get_value_combinations(k - 1, values=other_values):
                     yield [value] + item
-- 
2.43.0


From ac8ca830c972a42f65c5a83a00acfdef1bb69057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 10/30] fix: equal-looking non-finite commands do not share one
 generator

---
 src/dynamicprompts/samplers/command_collection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 6f17cb3..81ae387 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -19,10 +19,16 @@ class CommandCollection:
         self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
 
     def get_value(self, command: Command) -> SamplingResult | None:
-        try:
-            index = self._commands.index(command)
-        except ValueError:
-            raise ValueError(f"Command {command} not in collection") from None
+        # Equal commands are still separate commands, so look for the very same
+        # command before looking for one that's equal to it.
+        for index, c in enumerate(self._commands):
+            if c is command:
+                break
+        else:
+            try:
+                index = self._commands.index(command)
+            except ValueError:
+                raise ValueError(f"Command {command} not in collection") from None
 
         generator = self._generators[index]
         value = self._values[index]
-- 
2.43.0


From 2c932d711d675ec7bf38969ed0cabd480a0605ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 11/30] fix: do not cache unsorted wildcard values while
 shuffling is on

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 187eac8..1c64a3d 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -196,7 +196,7 @@ class WildcardManager:
         if self.dedup_wildcards:
             wildcards = list(dict.fromkeys(wildcards, None))
 
-        if self.sort_wildcards and not self.shuffle_wildcards:
+        if self.sort_wildcards:
             wildcards = sorted(wildcards, key=str)
 
         values_object = WildcardValues.from_items(wildcards)
-- 
2.43.0


From faf92160668604772dcfae055dfd8a0414533976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 12/30] fix: empty variable values and defaults are not
 undefined variables

---
 src/dynamicprompts/samplers/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index a01f248..7472143 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -93,7 +93,7 @@ class Sampler:
     ) -> ResultGen:
         variable = command.name
         command_to_sample = context.variables.get(variable, command.default)
-        if not command_to_sample:
+        if command_to_sample is None:
             if context.unknown_variable_value is None:
                 raise KeyError(f"Variable {variable} is not defined in this context")
             elif isinstance(context.unknown_variable_value, str):
-- 
2.43.0


From 0517214ccebcc7a24cc3fa891ca1fde6dee99a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 13/30] fix: an empty command is sampled like an empty
 sequence, not dropped

---
 src/dynamicprompts/sampling_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index 68d47b7..ff1bff1 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -110,7 +110,7 @@ class SamplingContext:
         :param prompt: The prompt template to generate prompts from.
         :param num_prompts: How many prompts to generate (at most). If None, generate all possible prompts.
         """
-        if not prompt:
+        if prompt is None or prompt == "":
             return []
         command: Command
         if isinstance(prompt, str):
-- 
2.43.0


From 62d47e3661a5eecc6344c66c79eb4fd9fc4949d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 14/30] fix: honour a bare seed of 0

---
 src/dynamicprompts/generators/randomprompt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamicprompts/generators/randomprompt.py b/src/dynamicprompts/generators/randomprompt.py
index 166c4de..341781e 100644
--- a/src/dynamicprompts/generators/randomprompt.py
+++ b/src/dynamicprompts/generators/randomprompt.py
@@ -54,10 +54,10 @@ class RandomPromptGenerator(PromptGenerator):
         if not template:
             template = ""
 
-        if seeds:
-            if isinstance(seeds, int):
-                seeds = [seeds]
+        if isinstance(seeds, int):
+            seeds = [seeds]
 
+        if seeds:
             if len(seeds) == 1:
                 seeds = seeds * num_images
 
-- 
2.43.0


From 4b0f140a3aa8aff46a0472d7f255ef3e915063e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 15/30] fix: an unusable list item in a structured file does
 not affect its neighbours

---
 src/dynamicprompts/wildcards/collection/structured.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 180a370..378b1d0 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -37,9 +37,12 @@ def _parse_structured_file_list(value: list[Any]) -> Iterable[str | WildcardItem
         elif isinstance(item, dict):
             # Support {"text": "foo", "weight": 1.1} syntax
             #     and {"content": "foo", "weight": 1.1}
-            weight = float(item.get("weight", 1))
             content = item.get("text") or item.get("content") or ""
-            if content:
+            try:
+                weight = float(item.get("weight", 1))
+            except (TypeError, ValueError):
+                content = ""  # Drop this item only
+            if content and isinstance(content, str):
                 if weight == 1:
                     yield content
                 else:
-- 
2.43.0


From 7ad84f68ac7a9fbc5d56285f52fb37760c0ba33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 16/30] fix: ignore empty entries of flat list wildcard files

---
 src/dynamicprompts/wildcards/collection/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/collection/structured.py b/src/dynamicprompts/wildcards/collection/structured.py
index 378b1d0..ffa912b 100644
--- a/src/dynamicprompts/wildcards/collection/structured.py
+++ b/src/dynamicprompts/wildcards/collection/structured.py
@@ -121,7 +121,7 @@ def parse_structured_file(file_path: Path) -> Iterable[tuple[str, WildcardCollec
         return _parse_structured_file_dict(data, file_path=file_path)
     if isinstance(data, list):
         # See if the data is a flat list of strings
-        valid_entries = [e for e in data if isinstance(e, str)]
+        valid_entries = [e for e in data if e and isinstance(e, str)]
         if valid_entries:
             # Only return a collection if it's not empty.
             collection = ListWildcardCollection(
-- 
2.43.0


From a710e335c6c9aa2ead79407cd2a0a0ec9feb7ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 17/30] fix: choose by index in choose_without_replacement, as
 values may be equal

---
 src/dynamicprompts/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/utils.py b/src/dynamicprompts/utils.py
index 5471c49..18c4061 100644
--- a/src/dynamicprompts/utils.py
+++ b/src/dynamicprompts/utils.py
@@ -92,11 +92,8 @@ def choose_without_replacement(
     else:
         chosen_values = []
         for _ in range(num_choices):
-            chosen = rand.choices(values, weights=weights, k=1)[0]
-            chosen_values.append(chosen)
-            # Remove the weight that belongs to the chosen value
-            # (not just the first weight that happens to equal it).
-            index = values.index(chosen)
+            # Choose by index, since neither values nor weights are unique
+            index = rand.choices(range(len(values)), weights=weights, k=1)[0]
+            chosen_values.append(values.pop(index))
             del weights[index]
-            del values[index]
         return chosen_values
-- 
2.43.0


From e6dff1ace3329491519e81895bac28ea203de20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 18/30] fix: support wrap commands in cyclical sampling

---
 src/dynamicprompts/samplers/base.py   | 13 +++++++------
 src/dynamicprompts/samplers/random.py |  9 ---------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/dynamicprompts/samplers/base.py b/src/dynamicprompts/samplers/base.py
index 7472143..a30574e 100644
--- a/src/dynamicprompts/samplers/base.py
+++ b/src/dynamicprompts/samplers/base.py
@@ -104,9 +104,10 @@ class Sampler:
             command_to_sample,
         )
 
-    def _get_wrap(
-        self,
-        command: WrapCommand,
-        context: SamplingContext,
-    ) -> ResultGen:
-        return self._unsupported_command(command)
+    def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
+        wrapper_gen = context.generator_from_command(command.wrapper)
+        inner_gen = context.generator_from_command(command.inner)
+        wrapper_result: SamplingResult
+        inner_result: SamplingResult
+        for wrapper_result, inner_result in zip(wrapper_gen, inner_gen):
+            yield wrapper_result.as_wrapper()(inner_result)
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 716cf8c..1ed3d2b 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -8,7 +8,6 @@ from dynamicprompts.commands import (
     Command,
     VariantCommand,
     WildcardCommand,
-    WrapCommand,
 )
 from dynamicprompts.samplers.base import Sampler
 from dynamicprompts.samplers.utils import (
@@ -135,11 +134,3 @@ class RandomSampler(Sampler):
         while True:
             value = next(gen)
             yield from context.sample_prompts(value, 1)
-
-    def _get_wrap(self, command: WrapCommand, context: SamplingContext) -> ResultGen:
-        wrapper_gen = context.generator_from_command(command.wrapper)
-        inner_gen = context.generator_from_command(command.inner)
-        wrapper_result: SamplingResult
-        inner_result: SamplingResult
-        for wrapper_result, inner_result in zip(wrapper_gen, inner_gen):
-            yield wrapper_result.as_wrapper()(inner_result)
-- 
2.43.0


From a8d5056ee6eb32696c5786352a019463481a0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 19/30] fix: variables with non-finite values do not multiply
 combinatorial prompts

---
 src/dynamicprompts/sampling_context.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/sampling_context.py b/src/dynamicprompts/sampling_context.py
index ff1bff1..b014c8f 100644
--- a/src/dynamicprompts/sampling_context.py
+++ b/src/dynamicprompts/sampling_context.py
@@ -7,7 +7,10 @@ from random import Random
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.commands import Command, LiteralCommand
-from dynamicprompts.commands.variable_commands import VariableAssignmentCommand
+from dynamicprompts.commands.variable_commands import (
+    VariableAccessCommand,
+    VariableAssignmentCommand,
+)
 from dynamicprompts.constants import DEFAULT_RANDOM
 from dynamicprompts.enums import SamplingMethod
 from dynamicprompts.parser.config import ParserConfig, default_parser_config
@@ -134,6 +137,13 @@ class SamplingContext:
     def get_effective_sampling_method(self, command: Command) -> SamplingMethod:
         if command.sampling_method:
             return command.sampling_method
+        if isinstance(command, VariableAccessCommand):
+            # A variable is sampled like the value it currently has
+            value = self.variables.get(command.name, command.default)
+            if value is not None and command.name not in self._variables_being_sampled:
+                return self.for_sampling_variable(
+                    command.name,
+                ).get_effective_sampling_method(value)
         return self.default_sampling_method
 
     def process_variable_assignments(
-- 
2.43.0


From 19b2350cc13c95ea48a17bff6532c75638aa2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:35 +0000
Subject: [PATCH 20/30] fix: quote the search query, which may contain
 characters special to URLs

---
 src/dynamicprompts/generators/feelinglucky.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/feelinglucky.py b/src/dynamicprompts/generators/feelinglucky.py
index 31adc3f..e8f535e 100644
--- a/src/dynamicprompts/generators/feelinglucky.py
+++ b/src/dynamicprompts/generators/feelinglucky.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import random
+from urllib.parse import quote
 
 from dynamicprompts.generators.dummygenerator import DummyGenerator
 from dynamicprompts.generators.promptgenerator import (
@@ -21,7 +22,7 @@ def query_lexica(query) -> dict:
             "Install with `pip install dynamicprompts[feelinglucky]` or "
             "`pip install requests`",
         ) from ie
-    url = f"https://lexica.art/api/v1/search?q={query}"
+    url = f"https://lexica.art/api/v1/search?q={quote(str(query))}"
     logger.info(f"Requesting {url}")
     response = requests.get(url)
     response.raise_for_status()
-- 
2.43.0


From 89899779dc7949bb0091d668a06365d75d38c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:20 +0000
Subject: [PATCH 21/30] fix: an unknown wildcard falls back to the very name
 that was looked up

---
 src/dynamicprompts/samplers/combinatorial.py | 4 +++-
 src/dynamicprompts/samplers/cycle.py         | 5 ++++-
 src/dynamicprompts/samplers/random.py        | 5 ++++-
 src/dynamicprompts/samplers/utils.py         | 4 +++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index 01eda2b..fead8dd 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -152,7 +152,9 @@ class CombinatorialSampler(Sampler):
 
         if not values:
             # The fallback never ends, but it only counts as one alternative
-            yield next(get_wildcard_not_found_fallback(command, context))
+            yield next(
+                get_wildcard_not_found_fallback(WildcardCommand(wildcard_path), context),
+            )
             return
 
         for val in values.iterate_string_values_weighted():
diff --git a/src/dynamicprompts/samplers/cycle.py b/src/dynamicprompts/samplers/cycle.py
index af78dc0..7ed493f 100644
--- a/src/dynamicprompts/samplers/cycle.py
+++ b/src/dynamicprompts/samplers/cycle.py
@@ -109,7 +109,10 @@ class CyclicalSampler(Sampler):
             command.variables,
         ).with_sampling_method(SamplingMethod.CYCLICAL)
         if len(wc_values) == 0:
-            yield from get_wildcard_not_found_fallback(command, new_context)
+            yield from get_wildcard_not_found_fallback(
+                WildcardCommand(wildcard_path),
+                new_context,
+            )
             return
 
         value_samplers = (
diff --git a/src/dynamicprompts/samplers/random.py b/src/dynamicprompts/samplers/random.py
index 1ed3d2b..b71f1e3 100644
--- a/src/dynamicprompts/samplers/random.py
+++ b/src/dynamicprompts/samplers/random.py
@@ -127,7 +127,10 @@ class RandomSampler(Sampler):
         values = context.wildcard_manager.get_values(wildcard_path)
 
         if len(values) == 0:
-            yield from get_wildcard_not_found_fallback(command, context)
+            yield from get_wildcard_not_found_fallback(
+                WildcardCommand(wildcard_path),
+                context,
+            )
             return
 
         gen = self._get_wildcard_choice_generator(context, values)
diff --git a/src/dynamicprompts/samplers/utils.py b/src/dynamicprompts/samplers/utils.py
index 23cdc6c..a049dc3 100644
--- a/src/dynamicprompts/samplers/utils.py
+++ b/src/dynamicprompts/samplers/utils.py
@@ -36,7 +36,9 @@ def wildcard_to_variant(
         for v in values
     ]
     if not variant_options:
-        fallback = next(get_wildcard_not_found_fallback(command, context))
+        fallback = next(
+            get_wildcard_not_found_fallback(WildcardCommand(wildcard), context),
+        )
         variant_options = [VariantOption(LiteralCommand(fallback.text))]
 
     min_bound = min(min_bound, max(len(values), 1))
-- 
2.43.0


From 443c75959541413c4769107f292ebb56ed0b15ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 22/30] fix: a part without any alternative does not crash
 combinatorial sequences

---
 src/dynamicprompts/samplers/command_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/samplers/command_collection.py b/src/dynamicprompts/samplers/command_collection.py
index 81ae387..398c3dc 100644
--- a/src/dynamicprompts/samplers/command_collection.py
+++ b/src/dynamicprompts/samplers/command_collection.py
@@ -16,7 +16,9 @@ class CommandCollection:
     def __init__(self, commands: Iterable[Command], context: SamplingContext) -> None:
         self._commands = list(commands)
         self._generators = [context.generator_from_command(c) for c in self._commands]
-        self._values: list[SamplingResult | None] = [next(g) for g in self._generators]
+        self._values: list[SamplingResult | None] = [
+            next(g, None) for g in self._generators
+        ]
 
     def get_value(self, command: Command) -> SamplingResult | None:
         # Equal commands are still separate commands, so look for the very same
-- 
2.43.0


From ea272af60d8bccb56092276c6a01219e42c3214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 23/30] fix: wrapped wildcard references fall back to deeper
 matches like bare ones

---
 src/dynamicprompts/wildcards/wildcard_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/wildcards/wildcard_manager.py b/src/dynamicprompts/wildcards/wildcard_manager.py
index 1c64a3d..a975b4b 100644
--- a/src/dynamicprompts/wildcards/wildcard_manager.py
+++ b/src/dynamicprompts/wildcards/wildcard_manager.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from typing import TYPE_CHECKING, Iterable
 
 from dynamicprompts.parser.config import default_parser_config
+from dynamicprompts.utils import removeprefix
 from dynamicprompts.wildcards.collection import WildcardCollection
 from dynamicprompts.wildcards.item import WildcardItem
 from dynamicprompts.wildcards.tree import (
@@ -179,7 +180,7 @@ class WildcardManager:
             values.extend(f.get_values())
         if not values and not wildcard.startswith("**"):
             # If the wildcard doesn't match anything, try again with a recursive wildcard
-            rec_wildcard = f"**/{wildcard}"
+            rec_wildcard = f"**/{removeprefix(wildcard, self._wildcard_wrap)}"
             rec_colls = list(self.match_collections(rec_wildcard))
             for f in rec_colls:
                 values.extend(f.get_values())
-- 
2.43.0


From a15c86d087b3fa6f92a7fc34478ffd2754ef41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:22 +0000
Subject: [PATCH 24/30] fix: computed wildcard names accept variants and
 wildcards as variable defaults

---
 src/dynamicprompts/parser/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index ba281a0..2ed00a4 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -406,10 +406,9 @@ def _parse_wildcard_variable_access_command(
     parts = parse_result[0].as_dict()
     name = parts["name"]
     default = parts.get("default") or LiteralCommand(name)
-    return VariableAccessCommand(
-        name=name,
-        default=LiteralCommand(default.literal.strip()),
-    )
+    if isinstance(default, LiteralCommand):
+        default = LiteralCommand(default.literal.strip())
+    return VariableAccessCommand(name=name, default=default)
 
 
 def _parse_variable_assignment_command(
-- 
2.43.0


From 308b6f9d1d79b8eec18e592984ae00dd6358a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:43 +0000
Subject: [PATCH 25/30] fix: the ends of variable and wrap commands end the
 literal text in them under any syntax

---
 src/dynamicprompts/parser/parse.py | 38 +++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/dynamicprompts/parser/parse.py b/src/dynamicprompts/parser/parse.py
index 2ed00a4..5dc0b7c 100644
--- a/src/dynamicprompts/parser/parse.py
+++ b/src/dynamicprompts/parser/parse.py
@@ -146,6 +146,7 @@ def _configure_literal_sequence(
     parser_config: ParserConfig,
     is_variant_literal: bool = False,
     is_wildcard_literal: bool = False,
+    end: str = "",
 ) -> pp.ParserElement:
     # Characters that are not allowed in a literal
     # - { denotes the start of a variant (or whatever variant_start is set to  )
@@ -163,7 +164,9 @@ def _configure_literal_sequence(
         # - } denotes the end of a variant (or whatever right brace is set to)
         # - | denotes the end of a variant option
         # - $ denotes the end of a bound expression
-        non_literal_chars += rf"|${parser_config.variant_end}"
+        # - } denotes the end of the enclosing variable or wrap command, if any
+        #     (or whatever variable_end or wrap_end are set to)
+        non_literal_chars += rf"|${parser_config.variant_end}{end}"
 
     if is_wildcard_literal:
         # Inside a wildcard the following characters are also not allowed
@@ -441,23 +444,25 @@ def create_parser(
 
     prompt = pp.Forward()
     variant_prompt = pp.Forward()
+    variable_prompt = pp.Forward()
+    wrap_prompt = pp.Forward()
     wildcard_prompt = pp.Forward()
 
     variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     wildcard_variable_access = _configure_variable_access(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     variable_assignment = _configure_variable_assignment(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=variable_prompt,
     )
     wrap_command = _configure_wrap_command(
         parser_config=parser_config,
-        prompt=variant_prompt,
+        prompt=wrap_prompt,
     )
     wildcard = _configure_wildcard(
         parser_config=parser_config,
@@ -472,6 +477,16 @@ def create_parser(
         is_variant_literal=True,
         parser_config=parser_config,
     )
+    variable_literal_sequence = _configure_literal_sequence(
+        is_variant_literal=True,
+        end=parser_config.variable_end,
+        parser_config=parser_config,
+    )
+    wrap_literal_sequence = _configure_literal_sequence(
+        is_variant_literal=True,
+        end=parser_config.wrap_end,
+        parser_config=parser_config,
+    )
     variants = _configure_variants(
         bound_expr,
         variant_prompt,
@@ -486,9 +501,10 @@ def create_parser(
         | wildcard
         | literal_sequence
     )
-    variant_chunk = (
-        variable_access | wrap_command | variants | wildcard | variant_literal_sequence
-    )
+    construct = variable_access | wrap_command | variants | wildcard
+    variant_chunk = construct | variant_literal_sequence
+    variable_chunk = construct | variable_literal_sequence
+    wrap_chunk = construct | wrap_literal_sequence
     wildcard_chunk = (
         wildcard_variable_access
         | variants
@@ -498,6 +514,8 @@ def create_parser(
 
     prompt <<= pp.ZeroOrMore(chunk)("prompt")
     variant_prompt <<= pp.ZeroOrMore(variant_chunk)("prompt")
+    variable_prompt <<= pp.ZeroOrMore(variable_chunk)("prompt")
+    wrap_prompt <<= pp.ZeroOrMore(wrap_chunk)("prompt")
     wildcard_prompt <<= pp.OneOrMore(wildcard_chunk, stop_on=pp.Char("("))("prompt")
 
     # Configure comments
@@ -512,11 +530,15 @@ def create_parser(
     literal_sequence.set_parse_action(_parse_literal_command)
     wildcard_literal_sequence.set_parse_action(_parse_literal_command)
     variant_literal_sequence.set_parse_action(_parse_literal_command)
+    variable_literal_sequence.set_parse_action(_parse_literal_command)
+    wrap_literal_sequence.set_parse_action(_parse_literal_command)
     variable_access.set_parse_action(_parse_variable_access_command)
     wildcard_variable_access.set_parse_action(_parse_wildcard_variable_access_command)
     variable_assignment.set_parse_action(_parse_variable_assignment_command)
     prompt.set_parse_action(_parse_sequence_or_single_command)
     variant_prompt.set_parse_action(_parse_sequence_or_single_command)
+    variable_prompt.set_parse_action(_parse_sequence_or_single_command)
+    wrap_prompt.set_parse_action(_parse_sequence_or_single_command)
     wrap_command.set_parse_action(_parse_wrap_command)
     wildcard_prompt.set_parse_action(_parse_sequence_or_single_command)
     return prompt
-- 
2.43.0


From 834767343e5ae1a03d3c8731a539a61538b68a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:58 +0000
Subject: [PATCH 26/30] fix: structured files in directories with a dot in
 their name keep the whole directory name

---
 src/dynamicprompts/wildcards/tree/build.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dynamicprompts/wildcards/tree/build.py b/src/dynamicprompts/wildcards/tree/build.py
index 9c94a84..2029767 100644
--- a/src/dynamicprompts/wildcards/tree/build.py
+++ b/src/dynamicprompts/wildcards/tree/build.py
@@ -36,14 +36,14 @@ def _get_wildcard_collections_from_path(
         return
 
     if file_path.suffix in (".json", ".yaml"):
-        pantry_root_prefix = _get_wildcard_file_name_from_path(
-            path=file_path.parent,
-            root_path=root_path,
-        )
-        if pantry_root_prefix:
-            # Suffix the / here, so we don't need to worry about pantries
+        pantry_root_prefix = ""
+        if file_path.parent != root_path:
+            # Directories keep what looks like a suffix, and
+            # suffix the / here, so we don't need to worry about pantries
             # in the root later
-            pantry_root_prefix += "/"
+            pantry_root_prefix = (
+                f"{file_path.parent.relative_to(root_path).as_posix()}/"
+            )
         try:
             for name, wildcard_file in parse_structured_file(file_path):
                 yield (f"{pantry_root_prefix}{name}", wildcard_file)
-- 
2.43.0


From 18008593719b9a62c163aed6da47cfea351d75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:53 +0000
Subject: [PATCH 27/30] fix: each phrase with bangs gets its own weight,
 whatever the other phrases contain

---
 src/dynamicprompts/generators/magicprompt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 7b9b780..ac3d911 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -48,12 +48,11 @@ def clean_up_magic_prompt(orig_prompt: str, prompt: str) -> str:
     prompt = re.sub(r"\b,\s*,\s*\b", ", ", prompt)
 
     # Translate bangs into proper weight modifiers
-    for match in re.findall(r"\b([\w\s\-]+)(\!+)", prompt):
-        phrase = match[0]
-        full_match = match[0] + match[1]
-        weight = round(pow(1.1, len(match[1])), 2)
-
-        prompt = prompt.replace(full_match, f"({phrase}:{weight})")
+    prompt = re.sub(
+        r"\b([\w\s\-]+)(\!+)",
+        lambda match: f"({match[1]}:{round(pow(1.1, len(match[2])), 2)})",
+        prompt,
+    )
 
     # Put the original prompt back in
     if removed_prompt_prefix:
-- 
2.43.0


From ba8ff4874ef7662c65798f00825023e5b293027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:53 +0000
Subject: [PATCH 28/30] fix: a magic prompt model that failed to load is loaded
 again, not taken as loaded

---
 src/dynamicprompts/generators/magicprompt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index ac3d911..2428f92 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -155,7 +155,8 @@ class MagicPromptGenerator(PromptGenerator):
 
     def set_model(self, model_name: str) -> None:
         if model_name != MagicPromptGenerator._model_name:
-            MagicPromptGenerator._model_name = model_name
+            # No model is loaded until loading this one has succeeded.
+            MagicPromptGenerator._model_name = None
             MagicPromptGenerator.generator = None
 
             self._generator = self._load_pipeline(model_name)
-- 
2.43.0


From 59d6a43718728d553b7c3e365bd1051b137d4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:53 +0000
Subject: [PATCH 29/30] fix: a magic prompt generator reports its own model's
 name

---
 src/dynamicprompts/generators/magicprompt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamicprompts/generators/magicprompt.py b/src/dynamicprompts/generators/magicprompt.py
index 2428f92..a79467d 100644
--- a/src/dynamicprompts/generators/magicprompt.py
+++ b/src/dynamicprompts/generators/magicprompt.py
@@ -162,6 +162,8 @@ class MagicPromptGenerator(PromptGenerator):
             self._generator = self._load_pipeline(model_name)
         else:
             self._generator = MagicPromptGenerator.generator
+        # Other generators may load other models later.
+        self._model_name = model_name
 
     def generate(self, *args, max_attempts: int = 20, **kwargs) -> list[str]:
         prompts = self._prompt_generator.generate(*args, **kwargs)
-- 
2.43.0


From ca9559ec90d95a5774744b5ff6f967fb04c9cbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:47 +0000
Subject: [PATCH 30/30] fix: the same command used twice in a combinatorial
 sequence shared one stream

---
 src/dynamicprompts/samplers/combinatorial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamicprompts/samplers/combinatorial.py b/src/dynamicprompts/samplers/combinatorial.py
index fead8dd..289f893 100644
--- a/src/dynamicprompts/samplers/combinatorial.py
+++ b/src/dynamicprompts/samplers/combinatorial.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import logging
+from copy import copy
 from typing import Iterable, cast
 
 from dynamicprompts.commands import (
@@ -56,6 +57,8 @@ class CombinatorialSampler(Sampler):
         context: SamplingContext,
     ) -> ResultGen:
         tokens, context = context.process_variable_assignments(command.tokens)
+        # The same command may be used several times; each use is a part of its own
+        tokens = [copy(c) for c in tokens]
         non_combo_commands = [
             c for c in tokens if c.sampling_method != SamplingMethod.COMBINATORIAL
         ]
-- 
2.43.0

