From 64c9304de1f4864c02417a71fde83384281d4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 01/63] fix: keep keys without a value as keys when they are
 the only or first key of an object

---
 conda_recipe_manager/parser/_node.py         |  8 +++++++-
 conda_recipe_manager/parser/recipe_reader.py | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..cf6d08a 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,13 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        # A lone empty key is a leaf, but it is rendered on its own line.
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            and not self.children[0].is_empty_key()
+        )
 
     def is_collection_element(self) -> bool:
         """
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..270db6c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -465,8 +465,13 @@ class RecipeReader(IsModifiable):
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
+                # to be added to the stack to maintain composition. A key on the next indentation level is not part of
+                # that first element. It is the next key in the same object.
+                if (
+                    last_node.is_collection_element()
+                    and not last_node.children[0].is_single_key()
+                    and (new_indent - cur_indent > TAB_SPACE_COUNT or new_node.list_member_flag)
+                ):
                     node_stack.append(last_node.children[0])
             elif new_indent < cur_indent:
                 # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
@@ -680,7 +685,11 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
+                # The first key of a collection element carries the list mark.
+                key_prefix = f"{spaces}{extra_tab}"
+                if node.is_collection_element() and child is node.children[0]:
+                    key_prefix = f"{spaces}- "
+                lines.append(f"{key_prefix}{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
                 lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
-- 
2.43.0


From ab1f97670ed2fdf6f3952aa8a143dc806bd64dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/63] fix: render_to_object() on top-level lists and on keys
 without a value

---
 conda_recipe_manager/parser/recipe_reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 270db6c..037bc38 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -757,7 +757,7 @@ class RecipeReader(IsModifiable):
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
-                data[key][child.value] = None
+                data.setdefault(key, {})[child.value] = None
                 continue
 
             # Collection nodes are skipped as they are placeholders. However, their children are rendered recursively
@@ -765,15 +765,18 @@ class RecipeReader(IsModifiable):
             if child.is_collection_element():
                 elem_dict = {}
                 for element in child.children:
+                    if element.is_empty_key():
+                        elem_dict[element.value] = None
+                        continue
                     self._render_object_tree(element, replace_variables, elem_dict)
-                if len(data[key]) == 0:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(elem_dict)
                 continue
 
             # List members accumulate values in a list
             if child.list_member_flag:
-                if key not in data:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(value)
                 continue
@@ -804,6 +807,10 @@ class RecipeReader(IsModifiable):
         for child in self._root.children:
             if child.is_comment():
                 continue
+            # Empty keys are interpreted to point to `None`
+            if child.is_empty_key():
+                data[cast(str, child.value)] = None
+                continue
             data.setdefault(cast(str, child.value), {})
             self._render_object_tree(child, replace_variables, data)
 
-- 
2.43.0


From 76d465ef64c167d771969b3dc186e63aa6a55644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 03/63] fix: multiline strings at the end of a file, with inner
 indentation, or as the first key of a list element

---
 conda_recipe_manager/parser/_types.py        |  4 +-
 conda_recipe_manager/parser/recipe_reader.py | 48 ++++++++++++--------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..f0c0649 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,9 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(
+        r"^\s*(?![\s#]).*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$"
+    )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 037bc38..373ae33 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -450,18 +450,27 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
+                # If this is the first key of an object in a list, the key is found after the list mark.
+                multiline_key = new_node
+                key_indent = new_indent
+                if new_node.is_collection_element():
+                    multiline_key = new_node.children[0]
+                    key_indent += TAB_SPACE_COUNT
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
-                    multiline_node.value.append(multiline.strip())
+                block_indent = 0
+                while line_idx < num_lines and (
+                    num_tab_spaces(lines[line_idx]) > key_indent or lines[line_idx].strip() == ""
+                ):
+                    # The first line with text determines the indentation of the block. Any indentation past that point
+                    # is a part of the value.
+                    if block_indent == 0 and lines[line_idx].strip():
+                        block_indent = num_tab_spaces(lines[line_idx])
+                    multiline_node.value.append(lines[line_idx][block_indent:].rstrip())
                     line_idx += 1
-                    multiline = lines[line_idx]
-                    multiline_indent = num_tab_spaces(multiline)
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                multiline_key.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -627,27 +636,29 @@ class RecipeReader(IsModifiable):
                 )
                 return
 
-            if is_first_collection_child:
-                lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
-                    f"{stringify_yaml(node.children[0].value)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
-                return
-
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
             # for other types.
             #
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                key_prefix = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
+                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
                         f"{stringify_yaml(val_line, multiline_variant=multi_variant)}".rstrip()
                     )
                 return
+
+            if is_first_collection_child:
+                lines.append(
+                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
+                    f"{stringify_yaml(node.children[0].value)}  "
+                    f"{node.children[0].comment}".rstrip()
+                )
+                return
+
             lines.append(
                 f"{spaces}{node.value}: "
                 f"{stringify_yaml(node.children[0].value)}  "
@@ -696,8 +707,9 @@ class RecipeReader(IsModifiable):
             else:
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
-            # should be left where they are.
-            if depth < 0 and not child.is_comment():
+            # should be left where they are. If the section ends in a multiline string, that string may already contain
+            # the blank line.
+            if depth < 0 and not child.is_comment() and lines[-1:] != [""]:
                 lines.append("")
 
     def render(self) -> str:
-- 
2.43.0


From af371a41594423f24ff8eff3ceb1bdfa8c4d7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 04/63] fix: keep quotes on strings that change meaning without
 them and find comments after quoted strings

---
 conda_recipe_manager/parser/_utils.py        | 28 ++++++++++++-
 conda_recipe_manager/parser/recipe_reader.py | 41 ++++++++++++++++----
 2 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..edad85d 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -9,6 +9,8 @@ import re
 from collections.abc import Iterable
 from typing import Final, cast
 
+import yaml
+
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
@@ -146,6 +148,27 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
+def _is_mangled_without_quotes(s: str) -> bool:
+    """
+    Indicates if a string that is written without quotes is no longer the same string. For example: `foo # bar` loses
+    everything after the `#` and `foo: bar` is not valid as a value. This does not include strings that look like
+    another primitive type (numbers, booleans, dates, etc). By common practice, those are left un-quoted.
+
+    :param s: String to check
+    :returns: True if the string needs to be quoted to be preserved. False otherwise.
+    """
+    # JINJA statements are not valid YAML and cannot be quoted.
+    if "{{" in s or "{%" in s:
+        return False
+    try:
+        value = cast(JsonType, yaml.safe_load(f"- {s}")[0])
+    except Exception:  # pylint: disable=broad-exception-caught
+        return True
+    if isinstance(value, str):
+        return value != s
+    return isinstance(value, (dict, list)) or (value is None and s.lower() not in {"null", "~"})
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -171,7 +194,10 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        return quote_special_strings(val, multiline_variant)
+        quoted_val: Final[str] = quote_special_strings(val, multiline_variant)
+        if multiline_variant == MultilineVariant.NONE and quoted_val == val and _is_mangled_without_quotes(val):
+            return json.dumps(val)
+        return quoted_val
     return val
 
 
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 373ae33..3800c3e 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -128,6 +128,39 @@ class RecipeReader(IsModifiable):
             )
         return output
 
+    @staticmethod
+    def _find_trailing_comment(s: str) -> str:
+        """
+        Finds the comment at the end of a line, if there is one. There is a comment at the end of the line if a `#`
+        symbol is found with leading whitespace before it. If it is "touching" a character on the left-side, or if it is
+        inside of a quoted string, it is just part of a string.
+
+        :param s: Pre-stripped (no leading/trailing spaces), non-Jinja line of a recipe file
+        :returns: The comment, including the leading `#`. If there is no comment, an empty string is returned.
+        """
+        matches: Final[list[re.Match[str]]] = list(Regex.DETECT_TRAILING_COMMENT.finditer(s))
+        if not matches:
+            return ""
+
+        quoted: list[tuple[int, int]] = []
+        if '"' in s or "'" in s:
+            try:
+                quoted = [
+                    (token.start_mark.column, token.end_mark.column)
+                    for token in yaml.scan(s)
+                    if isinstance(token, yaml.ScalarToken) and not token.plain
+                ]
+            except yaml.YAMLError:
+                # Some lines are only valid YAML after the JINJA statements in them have been evaluated.
+                pass
+
+        for match in matches:
+            # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
+            idx = match.start(2)
+            if not any(start <= idx < end for start, end in quoted):
+                return s[idx:]
+        return ""
+
     @staticmethod
     def _parse_line_node(s: str) -> Node:
         """
@@ -147,16 +180,10 @@ class RecipeReader(IsModifiable):
         #
         # There is an open issue to PyYaml to support comment parsing:
         #   - https://github.com/yaml/pyyaml/issues/90
-        comment = ""
         # The full line is a comment
         if s.startswith("#"):
             return Node(comment=s)
-        # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
-        # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
-        if comment_re_result is not None:
-            # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
-            comment = s[comment_re_result.start(2) :]
+        comment = RecipeReader._find_trailing_comment(s)
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
-- 
2.43.0


From dc802d6ab5ea923fc65f3d9d7efcb6ae9b19ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 05/63] fix: get_value() does not interpret strings twice

---
 conda_recipe_manager/parser/recipe_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 3800c3e..d002eff 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -918,9 +918,14 @@ class RecipeReader(IsModifiable):
                     return self._render_jinja_vars(multiline_str)
                 return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
             return_value = cast(Primitives, node.children[0].value)
+            # The value was interpreted when it was read. Interpreting a string again may turn it into something else.
+            if not sub_vars:
+                return [return_value] if node.children[0].list_member_flag else return_value
         # Leaf nodes can return their value directly
         elif node.is_leaf():
             return_value = cast(Primitives, node.value)
+            if not sub_vars:
+                return return_value
         else:
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
-- 
2.43.0


From 4a57f7b687fee6dde0ea385563c8946ee08429d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:04 +0000
Subject: [PATCH 06/63] fix: a path no longer continues into a value that looks
 like the next key

---
 conda_recipe_manager/parser/_traverse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..a4bf3ff 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,8 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        # Only keys are a part of a path. A value that happens to match must not be mistaken for one.
+        if child.key_flag and child.value == path_part:
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
-- 
2.43.0


From 02b66144fda42e9c80ccffec786934d9357e0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 07/63] fix: get_value() on an object in a list; find_value()
 does not mistake empty keys for values

---
 conda_recipe_manager/parser/recipe_reader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index d002eff..74d37e7 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -643,9 +643,9 @@ class RecipeReader(IsModifiable):
         spaces = TAB_AS_SPACES * depth
 
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
-        # just have a tab.
+        # just have a tab. There is no list if rendering started with the dictionary (`depth` is `0` for its keys).
         is_first_collection_child: Final[bool] = (
-            parent is not None and parent.is_collection_element() and node == parent.children[0]
+            parent is not None and depth > 0 and parent.is_collection_element() and node is parent.children[0]
         )
 
         # Handle same-line printing
@@ -725,7 +725,7 @@ class RecipeReader(IsModifiable):
             elif child.is_empty_key():
                 # The first key of a collection element carries the list mark.
                 key_prefix = f"{spaces}{extra_tab}"
-                if node.is_collection_element() and child is node.children[0]:
+                if depth >= 0 and node.is_collection_element() and child is node.children[0]:
                     key_prefix = f"{spaces}- "
                 lines.append(f"{key_prefix}{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
@@ -966,6 +966,7 @@ class RecipeReader(IsModifiable):
             #   - Types are checked so bools aren't simplified to "truthiness" evaluations.
             if (value is None and node.is_empty_key()) or (
                 node.is_leaf()
+                and not node.is_empty_key()
                 and type(node.value) == type(value)  # pylint: disable=unidiomatic-typecheck
                 and node.value == value
             ):
-- 
2.43.0


From 7c077c9fd489ff777dac63eba70ec3bd7f5dcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 08/63] fix: JSON patches follow RFC 6902: exact targets, no
 partial moves, values keep their type

---
 conda_recipe_manager/parser/recipe_parser.py | 257 +++++++++----------
 conda_recipe_manager/parser/recipe_reader.py |  36 ++-
 2 files changed, 140 insertions(+), 153 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..e486378 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -17,27 +17,23 @@
 
 from __future__ import annotations
 
+import copy
 import difflib
 import re
-from typing import Final, Optional, TypeGuard, cast
+from typing import Final, Optional, cast
 
 from jsonschema import validate as schema_validate
 
 from conda_recipe_manager.parser._node import Node
-from conda_recipe_manager.parser._traverse import (
-    INVALID_IDX,
-    remap_child_indices_virt_to_phys,
-    traverse,
-    traverse_with_index,
-)
-from conda_recipe_manager.parser._types import Regex, StrStack
+from conda_recipe_manager.parser._traverse import remap_child_indices_virt_to_phys, traverse
+from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
 from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
 from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
-from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonPatchType, JsonType
+from conda_recipe_manager.types import JsonPatchType, JsonType
 
 
 class RecipeParser(RecipeReader):
@@ -255,68 +251,41 @@ class RecipeParser(RecipeReader):
     ## YAML Patching Functions ##
 
     @staticmethod
-    def _is_valid_patch_node(node: Optional[Node], node_idx: int) -> TypeGuard[Node]:
+    def _is_index(token: str) -> bool:
         """
-        Indicates if the target node to perform a patch operation against is a valid node. This is based on the RFC spec
-        for JSON patching paths.
+        Indicates if the last part of a path refers to a position in a list.
 
-        :param node: Target node to validate
-        :param node_idx: If the caller is evaluating that a list member, exists, this is the VIRTUAL index into that
-            list. Otherwise this value should be less than 0.
-        :returns: True if the node can be patched. False otherwise.
+        :param token: Last part of a path
+        :returns: True if the token is an index or the special append index (`-`). False otherwise.
         """
-        # Path not found
-        if node is None:
-            return False
-
-        # Leaf nodes contain values and not path information. Paths should not be made that access leaf nodes, with the
-        # exception of members of a list and keys. Making such a path violates the RFC.
-        if not node.list_member_flag and not node.key_flag and node.is_leaf():
-            return False
+        return token == "-" or token.isdigit()
 
-        if node_idx >= 0:
-            # Check the bounds if the target requires the use of an index, remembering to use the virtual look-up table.
-            idx_map = remap_child_indices_virt_to_phys(node.children)
-            if node_idx < 0 or node_idx > (len(idx_map) - 1):
-                return False
-            # You cannot use the list access feature to access non-lists
-            if len(node.children) and not node.children[idx_map[node_idx]].list_member_flag:
-                return False
-
-        return True
-
-    def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
+    def _find_patch_parent(self, path_stack: StrStack) -> Optional[Node]:
         """
-        Finds the target node of an `add()` operation, along with some supporting information.
+        Finds the node that directly contains the target of a patch operation. As per the RFC, the containing
+        object/list must exist and the target must be addressed as the container requires: by an index in a list, by a
+        key in an object. Keys without a value can become either.
 
         This function does not modify the parse tree.
 
         :param path_stack: Path that describes a location in the tree, as a list, treated like a stack.
-        :returns: A tuple containing: - The target node, if found (or the parent node if the target is a list member) -
-            The index of a node if the target is a list member - An additional path that needs to be created, if
-            applicable - A flag indicating if the new data will be appended to a list
-        """
-        if len(path_stack) == 0:
-            return None, INVALID_IDX, INVALID_IDX, "", False
-
-        # Special case that only applies to `add`. The `-` character indicates the new element can be added to the end
-        # of the list.
-        append_to_list = False
-        if path_stack[0] == "-":
-            path_stack.pop(0)
-            append_to_list = True
-
-        path_stack_copy = path_stack.copy()
-        node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
-        # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
-        # allows us to create only 1 level in the path.
-        path_to_create = ""
-        # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
-        if node is None and not append_to_list:
-            path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
-
-        return node, virt_idx, phys_idx, path_to_create, append_to_list
+        :returns: The containing node, if there is one and if it can contain the target. `None` otherwise.
+        """
+        if len(path_stack) < 2:
+            return None
+        parent = traverse(self._root, path_stack[1:])
+        # Members of lists that are not objects, and values, do not contain anything.
+        if parent is None or not (parent.is_root() or parent.key_flag or parent.is_collection_element()):
+            return None
+
+        uses_index: Final[bool] = RecipeParser._is_index(path_stack[0])
+        members: Final[list[Node]] = [child for child in parent.children if not child.is_comment()]
+        # A key that points to a value, not a container. The exceptions are values that are explicitly empty.
+        if len(members) == 1 and not members[0].list_member_flag and not members[0].key_flag:
+            return parent if members[0].value in (None, [] if uses_index else {}) else None
+        if not members:
+            return None if uses_index and not parent.key_flag else parent
+        return parent if members[0].list_member_flag == uses_index else None
 
     def _patch_add(self, path_stack: StrStack, value: JsonType) -> bool:
         """
@@ -331,36 +300,31 @@ class RecipeParser(RecipeReader):
         #   not exist...However, the object itself or an array containing it does need to exist
         # In other words, the patch op will, at most, create 1 new path level. In addition, that also implies that
         # trying to append to an existing list only applies if the append operator is at the end of the list.
-        node, virt_idx, phys_idx, path_to_create, append_to_list = self._patch_add_find_target(path_stack)
-
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
+        parent = self._find_patch_parent(path_stack)
+        if parent is None:
             return False
 
-        # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
-        # about to create.
-        if path_to_create:
-            value = {path_to_create: value}
-
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Mark children as list members if they are list members
-        if append_to_list or phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                for child in new_children:
-                    child.list_member_flag = True
-
-        # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
-        if phys_idx > INVALID_IDX:
-            node.children[phys_idx:phys_idx] = new_children
-        # Extend the list of children if we're appending or adding a new key.
-        elif append_to_list or path_to_create:
-            node.children.extend(new_children)
+        token: Final[str] = path_stack[0]
+        idx_map: list[int] = []
+        if RecipeParser._is_index(token):
+            idx_map = [i for i in remap_child_indices_virt_to_phys(parent.children) if parent.children[i].list_member_flag]
+            if token != "-" and int(token) > len(idx_map):
+                return False
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
+        elif traverse(parent, [token, ROOT_NODE_VALUE]) is not None:
+            return self._patch_replace(path_stack, value)
+
+        # Explicitly empty containers are no longer empty.
+        parent.children = [
+            child for child in parent.children if child.is_comment() or child.list_member_flag or child.key_flag
+        ]
+        if not RecipeParser._is_index(token):
+            parent.children.extend(RecipeReader._generate_subtree({token: value}))
+        # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
+        elif token != "-" and int(token) < len(idx_map):
+            parent.children.insert(idx_map[int(token)], RecipeReader._generate_list_member(value))
         else:
-            node.children = new_children
-
+            parent.children.append(RecipeReader._generate_list_member(value))
         return True
 
     def _patch_remove(self, path_stack: StrStack) -> bool:
@@ -370,33 +334,16 @@ class RecipeParser(RecipeReader):
         :param path_stack: Path that describes a location in the tree, as a list, treated like a stack.
         :returns: True if the operation was successful. False otherwise.
         """
-        if len(path_stack) == 0:
-            return False
-
         # Removal in all scenarios requires targeting the parent node.
-        node_idx = -1 if not path_stack[0].isdigit() else int(path_stack[0])
-        # `traverse()` is destructive to the stack, so make a copy for the second traversal call.
-        path_stack_copy = path_stack.copy()
-        node_to_rm = traverse(self._root, path_stack)
-        if not RecipeParser._is_valid_patch_node(node_to_rm, -1):
+        parent = self._find_patch_parent(path_stack)
+        # `traverse()` is destructive to the stack, so make a copy.
+        node_to_rm = traverse(self._root, path_stack.copy())
+        if parent is None or node_to_rm is None:
             return False
 
-        path_stack_copy.pop(0)
-        node = traverse(self._root, path_stack_copy)
-        if not RecipeParser._is_valid_patch_node(node, node_idx):
-            return False
-
-        if node_idx > INVALID_IDX:
-            # Pop the "physical" index, not the "virtual" one to ensure comments have been accounted for.
-            node.children.pop(remap_child_indices_virt_to_phys(node.children)[node_idx])
-            return True
-
-        # In all other cases, the node to be removed must be found before eviction
-        for i in range(len(node.children)):
-            if node.children[i] == node_to_rm:
-                node.children.pop(i)
-                return True
-        return False
+        # Nodes that look the same are not the same node.
+        parent.children = [child for child in parent.children if child is not node_to_rm]
+        return True
 
     def _patch_replace(self, path_stack: StrStack, value: JsonType) -> bool:
         """
@@ -406,30 +353,40 @@ class RecipeParser(RecipeReader):
         :param value: Value to update with.
         :returns: True if the operation was successful. False otherwise.
         """
-        node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
+        parent = self._find_patch_parent(path_stack)
+        # `traverse()` is destructive to the stack, so make a copy.
+        node = traverse(self._root, path_stack.copy())
+        if parent is None or node is None:
             return False
 
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Lists inject all children at the target position.
-        if phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                # Ensure all children are marked as list members
-                for child in new_children:
-                    child.list_member_flag = True
-            node.children[phys_idx:phys_idx] = new_children
-            # Evict the old child, which is now behind the new children
-            node.children.pop(phys_idx + len(new_children))
+        # List members are replaced at the target position.
+        if node.list_member_flag:
+            new_member = RecipeReader._generate_list_member(value)
+            parent.children = [new_member if child is node else child for child in parent.children]
             return True
 
         # Leafs that represent values/paths of values can evict all children, and be replaced with new children, derived
         # from a new tree of values.
-        node.children = new_children
+        node.children = RecipeReader._generate_subtree(value)
+        # Keys share their line, and the comment on it, with their value. The comment described the old value.
+        if node.is_single_key() and not node.children[0].list_member_flag:
+            node.comment = node.children[0].comment
         return True
 
+    def _get_patch_value(self, path: str) -> JsonType:
+        """
+        Retrieves the value that is the source of a patch operation.
+
+        :param path: Path to the value
+        :raises KeyError: If there is no value at this path
+        :returns: The value
+        """
+        # Keys without a value contain `null`
+        node = traverse(self._root, str_to_stack_path(path))
+        if node is not None and node.is_empty_key():
+            return None
+        return self.get_value(path)
+
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -444,16 +401,18 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
-        # Validate that `add` will succeed before we `remove` anything
-        node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
-        if not RecipeParser._is_valid_patch_node(node, virt_idx):
-            return False
-
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # The target of `add` may only turn out to be invalid after the `remove`. For example, because it is a part of
+        # what was removed. In that case, nothing may change.
+        original_root: Final[Node] = self._root
+        self._root = copy.deepcopy(original_root)
+        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
+            return True
+        self._root = original_root
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
@@ -469,12 +428,27 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self.get_value(value_from)
+            original_value = self._get_patch_value(value_from)
         except KeyError:
             return False
 
         return self._patch_add(path_stack, original_value)
 
+    @staticmethod
+    def _is_json_equal(lhs: JsonType, rhs: JsonType) -> bool:
+        """
+        Compares two JSON values. Unlike Python, JSON does not consider `1` and `true` to be equal.
+
+        :param lhs: Left-hand side of the comparison
+        :param rhs: Right-hand side of the comparison
+        :returns: True if the two values are equal. False otherwise.
+        """
+        if isinstance(lhs, dict) and isinstance(rhs, dict):
+            return lhs.keys() == rhs.keys() and all(RecipeParser._is_json_equal(lhs[key], rhs[key]) for key in lhs)
+        if isinstance(lhs, list) and isinstance(rhs, list):
+            return len(lhs) == len(rhs) and all(RecipeParser._is_json_equal(l, r) for l, r in zip(lhs, rhs))
+        return isinstance(lhs, bool) == isinstance(rhs, bool) and lhs == rhs
+
     def _patch_test(self, path: str, value: JsonType) -> bool:
         """
         Performs a JSON patch `test` operation.
@@ -484,7 +458,7 @@ class RecipeParser(RecipeReader):
         :returns: True if the target value is equal to the provided value. False otherwise.
         """
         try:
-            return self.get_value(path) == value
+            return RecipeParser._is_json_equal(self._get_patch_value(path), value)
         except KeyError:
             # Path not found
             return False
@@ -549,7 +523,7 @@ class RecipeParser(RecipeReader):
 
         # A no-op move is silly, but we might as well make it efficient AND ensure a no-op move doesn't corrupt our
         # modification flag.
-        if op == "move" and path == patch["from"]:
+        if op == "move" and path == patch["from"] and self.contains_value(path):
             return True
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
@@ -580,9 +554,10 @@ class RecipeParser(RecipeReader):
         """
         paths = self.search(regex, include_comment)
         summation: bool = True
-        for path in paths:
-            patch["path"] = path
-            summation = summation and self.patch(patch)
+        # Patches may add or remove list members, which changes the paths of the members that follow.
+        for path in reversed(paths):
+            # Every match is patched, even if patching another one fails.
+            summation = self.patch({**patch, "path": path}) and summation
         return summation
 
     def diff(self) -> str:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 74d37e7..7d20d03 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -21,7 +21,6 @@ from conda_recipe_manager.parser._traverse import traverse, traverse_all
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
-    ForceIndentDumper,
     Regex,
     StrStack,
 )
@@ -241,17 +240,30 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
-        # For complex types, generate the YAML equivalent and build a new tree.
-        if not isinstance(value, PRIMITIVES_TUPLE):
-            # Although not technically required by YAML, we add the optional spacing for human readability.
-            return RecipeReader(  # pylint: disable=protected-access
-                # NOTE: `yaml.dump()` defaults to 80 character lines. Longer lines may have newlines unexpectedly
-                #       injected into this value, screwing up the parse-tree.
-                yaml.dump(value, Dumper=ForceIndentDumper, sort_keys=False, width=sys.maxsize)  # type: ignore[misc]
-            )._root.children
-
-        # Primitives can be safely stringified to generate a parse tree.
-        return RecipeReader(str(stringify_yaml(value)))._root.children  # pylint: disable=protected-access
+        # Build the tree directly. Going through the text form of a value would re-interpret the value.
+        if isinstance(value, dict) and value:
+            return [
+                Node(key, children=RecipeReader._generate_subtree(child), key_flag=True) for key, child in value.items()
+            ]
+        if isinstance(value, list) and value:
+            return [RecipeReader._generate_list_member(member) for member in value]
+
+        # Primitives and empty collections are stored as-is.
+        return [Node(cast(Primitives, value))]
+
+    @staticmethod
+    def _generate_list_member(value: JsonType) -> Node:
+        """
+        Given a value supported by JSON, generate the node that represents that value as a member of a list.
+
+        :param value: Value of the list member
+        :returns: A node that can be added to a list.
+        """
+        # Objects in a list require the children to be wrapped in a collection node
+        if isinstance(value, dict) and value:
+            return Node(list_member_flag=True, children=RecipeReader._generate_subtree(value))
+        # Anything else is stored on one line, as it is when it is read.
+        return Node(cast(Primitives, value), list_member_flag=True)
 
     def _set_on_schema_version(self) -> tuple[int, re.Pattern[str]]:
         """
-- 
2.43.0


From 9dbd700dfb2defcd1ee5e175d6236a51759fb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:45 +0000
Subject: [PATCH 09/63] fix: patches that empty a list element, or remove its
 first key before a comment

---
 conda_recipe_manager/parser/recipe_parser.py |  7 ++++++-
 conda_recipe_manager/parser/recipe_reader.py | 17 +++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index e486378..5e13003 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -275,7 +275,8 @@ class RecipeParser(RecipeReader):
             return None
         parent = traverse(self._root, path_stack[1:])
         # Members of lists that are not objects, and values, do not contain anything.
-        if parent is None or not (parent.is_root() or parent.key_flag or parent.is_collection_element()):
+        is_element: Final[bool] = parent is not None and parent.list_member_flag and parent.value == Node._sentinel
+        if parent is None or not (parent.is_root() or parent.key_flag or is_element):
             return None
 
         uses_index: Final[bool] = RecipeParser._is_index(path_stack[0])
@@ -343,6 +344,10 @@ class RecipeParser(RecipeReader):
 
         # Nodes that look the same are not the same node.
         parent.children = [child for child in parent.children if child is not node_to_rm]
+        # The comments of a list element that is now empty have no key left that they could be written with.
+        if parent.list_member_flag and all(child.is_comment() for child in parent.children):
+            parent.comment = ""
+            parent.children = []
         return True
 
     def _patch_replace(self, path_stack: StrStack, value: JsonType) -> bool:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 7d20d03..b371c2d 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -640,6 +640,16 @@ class RecipeReader(IsModifiable):
         # TODO complete
         raise NotImplementedError
 
+    @staticmethod
+    def _first_non_comment(node: Node) -> Optional[Node]:
+        """
+        Finds the first child of a node that isn't a comment. In a list element, that child carries the list mark.
+
+        :param node: Node to look at
+        :returns: The first child that isn't a comment, if there is one.
+        """
+        return next((child for child in node.children if not child.is_comment()), None)
+
     @staticmethod
     def _render_tree(node: Node, depth: int, lines: list[str], parent: Optional[Node] = None) -> None:
         # pylint: disable=too-complex
@@ -657,7 +667,10 @@ class RecipeReader(IsModifiable):
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab. There is no list if rendering started with the dictionary (`depth` is `0` for its keys).
         is_first_collection_child: Final[bool] = (
-            parent is not None and depth > 0 and parent.is_collection_element() and node is parent.children[0]
+            parent is not None
+            and depth > 0
+            and parent.is_collection_element()
+            and node is RecipeReader._first_non_comment(parent)
         )
 
         # Handle same-line printing
@@ -737,7 +750,7 @@ class RecipeReader(IsModifiable):
             elif child.is_empty_key():
                 # The first key of a collection element carries the list mark.
                 key_prefix = f"{spaces}{extra_tab}"
-                if depth >= 0 and node.is_collection_element() and child is node.children[0]:
+                if depth >= 0 and node.is_collection_element() and child is RecipeReader._first_non_comment(node):
                     key_prefix = f"{spaces}- "
                 lines.append(f"{key_prefix}{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
-- 
2.43.0


From 98ed43bcfab003bf7abc5d1d6a743c7e52fc9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 10/63] fix: reject patches that move a value into itself or
 have an empty `from`

---
 conda_recipe_manager/parser/recipe_parser.py | 10 ++++++++--
 conda_recipe_manager/parser/types.py         |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 5e13003..2ece615 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -258,7 +258,7 @@ class RecipeParser(RecipeReader):
         :param token: Last part of a path
         :returns: True if the token is an index or the special append index (`-`). False otherwise.
         """
-        return token == "-" or token.isdigit()
+        return token == "-" or token.isdecimal()
 
     def _find_patch_parent(self, path_stack: StrStack) -> Optional[Node]:
         """
@@ -410,11 +410,17 @@ class RecipeParser(RecipeReader):
         except KeyError:
             return False
 
+        # From the RFC: "The `from` location MUST NOT be a proper prefix of the `path` location". Removing a list member
+        # would otherwise make the path refer to the next member.
+        from_stack: Final[StrStack] = str_to_stack_path(value_from)
+        if len(path_stack) > len(from_stack) and path_stack[-len(from_stack) :] == from_stack:
+            return False
+
         # The target of `add` may only turn out to be invalid after the `remove`. For example, because it is a part of
         # what was removed. In that case, nothing may change.
         original_root: Final[Node] = self._root
         self._root = copy.deepcopy(original_root)
-        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
+        if self._patch_remove(from_stack) and self._patch_add(path_stack, original_value):
             return True
         self._root = original_root
         return False
diff --git a/conda_recipe_manager/parser/types.py b/conda_recipe_manager/parser/types.py
index 69957bb..3d83386 100644
--- a/conda_recipe_manager/parser/types.py
+++ b/conda_recipe_manager/parser/types.py
@@ -37,7 +37,7 @@ JSON_PATCH_SCHEMA: Final[SchemaType] = {
     "properties": {
         "op": {"enum": ["add", "remove", "replace", "move", "copy", "test"]},
         "path": {"type": "string", "minLength": 1},
-        "from": {"type": "string"},
+        "from": {"type": "string", "minLength": 1},
         "value": {
             "type": [
                 "string",
-- 
2.43.0


From bf30e559d87132e0b29706e2bab257ac69b25e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 11/63] fix: get_selector_paths() gives the same answer every
 time

---
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index b371c2d..c6757df 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1202,7 +1202,8 @@ class RecipeReader(IsModifiable):
             return []
         path_list: list[str] = []
         for path_stack in self._selector_tbl[selector]:
-            path_list.append(stack_path_to_str(path_stack.path))
+            # `stack_path_to_str()` is destructive to the stack, so make a copy.
+            path_list.append(stack_path_to_str(path_stack.path.copy()))
         # The list should be de-duped and maintain order. Duplications occur when key-value pairings mean a selector
         # occurs on two nodes with the same path.
         #
-- 
2.43.0


From 91716535886f39d6c1a28dd722ad92539d9cecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:33 +0000
Subject: [PATCH 12/63] fix: `and` binds tighter than `or` in selectors

---
 conda_recipe_manager/parser/selector_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..fc962a9 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -115,17 +115,21 @@ class SelectorParser(IsModifiable):
         :returns: The root of the parse tree
         """
 
+        precedence: Final[dict[SelectorValue, int]] = {LogicOp.OR: 0, LogicOp.AND: 1, LogicOp.NOT: 2}
+
         # Shunting yard
         op_stack: list[_SelectorNode] = []
         postfix_stack: list[_SelectorNode] = []
         while tokens:
             node = _SelectorNode(tokens.pop(0))
             if node.is_logical_op():
-                # `NOT` has the highest precedence. For example:
+                # `NOT` has the highest precedence, followed by `AND`, and then `OR`. Operators of equal precedence are
+                # grouped from the left. For example:
                 #   - `not osx and win` is interpreted as `(not osx) and win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
+                #   - `osx and arm64 or win` is interpreted as `(osx and arm64) or win`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    while op_stack and precedence[op_stack[-1].value] >= precedence[node.value]:
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
-- 
2.43.0


From b2f20a8f41650fb5642047dafac232b8fbf463fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:57 +0000
Subject: [PATCH 13/63] fix: selector and comment edits apply to the line, and
 only to the line; `and`-ing selectors groups `or`

---
 conda_recipe_manager/parser/recipe_parser.py  | 52 ++++++++++++-------
 .../parser/recipe_parser_deps.py              |  5 +-
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 2ece615..a0d3993 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -113,6 +113,28 @@ class RecipeParser(RecipeReader):
         self._is_modified = True
 
     ## Selector Editing Functions ##
+
+    def _set_line_comment(self, path: str, comment: str) -> None:
+        """
+        Sets the comment of a line. Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure
+        that comments are duplicated across all nodes on a line.
+
+        :param path: Path to the line
+        :param comment: Comment to set, including the leading `#`
+        """
+        path_stack: Final[StrStack] = str_to_stack_path(path)
+        node = traverse(self._root, path_stack.copy())
+        parent = traverse(self._root, path_stack[1:])
+        # An element of a list shares its line with its first key.
+        if parent is not None and parent.is_collection_element() and node is RecipeReader._first_non_comment(parent):
+            parent.comment = comment
+        while node is not None:
+            node.comment = comment
+            # Keys share their line with a value, but not with the member of a list.
+            if node.is_single_key() and not node.children[0].list_member_flag:
+                node.children[0].comment = comment
+            node = RecipeReader._first_non_comment(node) if node.is_collection_element() else None
+
     def add_selector(
         self, path: str, selector: str | SelectorParser, mode: SelectorConflictMode = SelectorConflictMode.REPLACE
     ) -> None:
@@ -143,6 +165,10 @@ class RecipeParser(RecipeReader):
         def _extract_selector(s: str) -> str:
             return s.replace("[", "", 1)[::-1].replace("]", "", 1)[::-1]
 
+        # `and` binds tighter than `or`
+        def _group_selector(s: str) -> str:
+            return f"({s})" if mode == SelectorConflictMode.AND and "or" in s.split() else s
+
         comment = ""
         old_selector_found = Regex.SELECTOR.search(node.comment)
         if node.comment == "" or mode == SelectorConflictMode.REPLACE:
@@ -150,20 +176,15 @@ class RecipeParser(RecipeReader):
         # "Append" to existing selectors
         elif old_selector_found:
             logic_op = "and" if mode == SelectorConflictMode.AND else "or"
-            old_selector = _extract_selector(old_selector_found.group())
-            new_selector = _extract_selector(selector)
+            old_selector = _group_selector(_extract_selector(old_selector_found.group()))
+            new_selector = _group_selector(_extract_selector(selector))
             comment = f"# [{old_selector} {logic_op} {new_selector}]"
         # If the comment is not a selector, put the selector first, then append the comment.
         else:
             # Strip the existing comment of it's leading `#` symbol
             comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
-
+        self._set_line_comment(path, comment)
         self._rebuild_selectors()
         self._is_modified = True
 
@@ -190,17 +211,12 @@ class RecipeParser(RecipeReader):
         selector = search_results.group(0)
         comment = node.comment.replace(selector, "")
         # Sanitize potential edge-case scenarios after a removal
-        comment = comment.replace("#  ", "# ").replace("# # ", "# ")
+        comment = comment.replace("#  ", "# ").replace("# # ", "# ").rstrip()
         # Detect and remove empty comments. Other comments should remain intact.
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
-
+        self._set_line_comment(path, comment)
         self._rebuild_selectors()
         self._is_modified = True
         return selector
@@ -241,11 +257,7 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        self._set_line_comment(path, comment)
         self._is_modified = True
 
     ## YAML Patching Functions ##
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..2b04bbd 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -200,7 +200,10 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             # `add_selector()`, by nature of how selectors work, does not support "append" mode. If an append operation
             # occurred, we must calculate the position of the last array element. We only add selectors on a successful
             # patch, so we know we can make assume a dependency list exists.
-            if sel_path.endswith("/-"):
+            if is_new_section:
+                # The selector belongs to the dependency, not to the section.
+                sel_path = f"{base_path}/0"
+            elif sel_path.endswith("/-"):
                 sel_path = sel_path[0:-1] + str(len(cast(list[str], self.get_value(base_path))) - 1)
             self.add_selector(sel_path, dep.selector, mode=sel_mode)
         return patch_success
-- 
2.43.0


From 8a51ae28a2c8d218e0ec703af60c7be3536a2864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 14/63] fix: parentheses in selectors

---
 .../parser/selector_parser.py                 | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index fc962a9..82977bc 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -88,6 +88,27 @@ class SelectorParser(IsModifiable):
     Parses a selector statement
     """
 
+    @staticmethod
+    def _tokenize(content: str) -> list[str]:
+        """
+        Splits a selector statement into tokens. Parentheses that group terms are tokens of their own.
+
+        :param content: Selector statement, without the surrounding brackets
+        :returns: List of tokens
+        """
+        tokens: list[str] = []
+        for term in content.split():
+            while term.startswith("("):
+                tokens.append("(")
+                term = term[1:]
+            closing: list[str] = []
+            # Parentheses that are closed in the same term, like in a function call, are a part of that term.
+            while term.endswith(")") and term.count(")") > term.count("("):
+                closing.append(")")
+                term = term[:-1]
+            tokens.extend(([term] if term else []) + closing)
+        return tokens
+
     @staticmethod
     def _process_postfix_stack(stack: list[_SelectorNode]) -> Optional[_SelectorNode]:
         """
@@ -115,7 +136,7 @@ class SelectorParser(IsModifiable):
         :returns: The root of the parse tree
         """
 
-        precedence: Final[dict[SelectorValue, int]] = {LogicOp.OR: 0, LogicOp.AND: 1, LogicOp.NOT: 2}
+        precedence: Final[dict[SelectorValue, int]] = {"(": -1, LogicOp.OR: 0, LogicOp.AND: 1, LogicOp.NOT: 2}
 
         # Shunting yard
         op_stack: list[_SelectorNode] = []
@@ -133,10 +154,21 @@ class SelectorParser(IsModifiable):
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
+            if node.value == "(":
+                op_stack.append(node)
+                continue
+            if node.value == ")":
+                while op_stack and op_stack[-1].value != "(":
+                    postfix_stack.append(op_stack.pop())
+                if op_stack:
+                    op_stack.pop()
+                continue
             postfix_stack.append(node)
 
         while op_stack:
-            postfix_stack.append(op_stack.pop())
+            node = op_stack.pop()
+            if node.value != "(":
+                postfix_stack.append(node)
 
         root = SelectorParser._process_postfix_stack(postfix_stack)
 
@@ -161,7 +193,7 @@ class SelectorParser(IsModifiable):
 
         self._content: Final[str] = _init_content()
 
-        self._root = SelectorParser._parse_selector_tree(self._content.split())
+        self._root = SelectorParser._parse_selector_tree(SelectorParser._tokenize(self._content))
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 52f1da79e6b18bc9d3112c40f45a520b0c7b0451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 15/63] fix: selectors on comment-only lines are not listed
 under a nonsensical path

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index c6757df..08a82a8 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -420,8 +420,8 @@ class RecipeReader(IsModifiable):
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
-            # Ignore empty comments
-            if not node.comment:
+            # Ignore empty comments and lines that only consist of a comment: there is nothing to select.
+            if not node.comment or node.is_comment():
                 return
             match = Regex.SELECTOR.search(node.comment)
             if not match:
-- 
2.43.0


From 71242f2516b3a8a47750d2a43785d3dbedcd2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 16/63] fix: comments with quotes on the first line of a
 multiline string

---
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 08a82a8..179d812 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -147,7 +147,7 @@ class RecipeReader(IsModifiable):
                 quoted = [
                     (token.start_mark.column, token.end_mark.column)
                     for token in yaml.scan(s)
-                    if isinstance(token, yaml.ScalarToken) and not token.plain
+                    if isinstance(token, yaml.ScalarToken) and token.style in {"'", '"'}
                 ]
             except yaml.YAMLError:
                 # Some lines are only valid YAML after the JINJA statements in them have been evaluated.
-- 
2.43.0


From d8fa2b7b66a62d512be60f9f5e5edb0ba331f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 17/63] fix: list the selector in an added comment

---
 conda_recipe_manager/parser/recipe_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index a0d3993..c73989e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -258,6 +258,8 @@ class RecipeParser(RecipeReader):
         if comment[0] != "#":
             comment = f"# {comment}"
         self._set_line_comment(path, comment)
+        # Text in brackets is a selector, wherever it is found in a comment
+        self._rebuild_selectors()
         self._is_modified = True
 
     ## YAML Patching Functions ##
-- 
2.43.0


From f2ad52fbb17a44b207cd5ab8b1b47de9da1c221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 18/63] fix: do not parse every string again to find out if it
 needs quotes

---
 conda_recipe_manager/parser/_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index edad85d..2fabac9 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -27,6 +27,10 @@ from conda_recipe_manager.types import H, JsonType, SentinelType
 _TO_QUOTE_SPECIAL_CHARS: Final[set[str]] = {"[", "]", ",", "&", ":", "*", "?", "-", "=", "!", "%", "@", "\\"}
 
 
+# Strings that can always be written without quotes: nothing in them starts a comment, mapping, list, etc.
+_PLAIN_STRING: Final[re.Pattern[str]] = re.compile(r"[a-zA-Z0-9_]([ -~]*[!-~])?")
+
+
 def str_to_stack_path(path: str) -> StrStack:
     """
     Takes a JSON-patch path as a string and return a path as a stack of strings. String paths are used by callers,
@@ -160,6 +164,9 @@ def _is_mangled_without_quotes(s: str) -> bool:
     # JINJA statements are not valid YAML and cannot be quoted.
     if "{{" in s or "{%" in s:
         return False
+    # Most strings do not need to be parsed to find out.
+    if "#" not in s and ":" not in s and _PLAIN_STRING.fullmatch(s):
+        return False
     try:
         value = cast(JsonType, yaml.safe_load(f"- {s}")[0])
     except Exception:  # pylint: disable=broad-exception-caught
-- 
2.43.0


From 44ab2a81d3c3bb16ab3f0c2331b998615759a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 19/63] fix: variables with values that are not YAML, like `*`,
 no longer fail get_value()

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 179d812..146b04b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -389,7 +389,11 @@ class RecipeReader(IsModifiable):
             #   - Ensures the returned value is YAML-parsable
             elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
                 s = f"${s}"
-        return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        try:
+            return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        except yaml.YAMLError:
+            # Not every value of a variable is valid YAML on its own. For example: `*`
+            return s
 
     def _init_vars_tbl(self) -> None:
         """
-- 
2.43.0


From e20c7fa8d39c7032f9502144e2255580e8bb74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 20/63] fix: list elements keep the comment of their first key
 after patches; multiline text has no comment

---
 conda_recipe_manager/parser/recipe_parser.py | 28 +++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index c73989e..6f10498 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -25,14 +25,14 @@ from typing import Final, Optional, cast
 from jsonschema import validate as schema_validate
 
 from conda_recipe_manager.parser._node import Node
-from conda_recipe_manager.parser._traverse import remap_child_indices_virt_to_phys, traverse
+from conda_recipe_manager.parser._traverse import remap_child_indices_virt_to_phys, traverse, traverse_all
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
 from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
-from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
+from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA, MultilineVariant
 from conda_recipe_manager.types import JsonPatchType, JsonType
 
 
@@ -130,8 +130,12 @@ class RecipeParser(RecipeReader):
             parent.comment = comment
         while node is not None:
             node.comment = comment
-            # Keys share their line with a value, but not with the member of a list.
-            if node.is_single_key() and not node.children[0].list_member_flag:
+            # Keys share their line with a value, but not with the member of a list or the text of a multiline string.
+            if (
+                node.is_single_key()
+                and not node.children[0].list_member_flag
+                and node.children[0].multiline_variant == MultilineVariant.NONE
+            ):
                 node.children[0].comment = comment
             node = RecipeReader._first_non_comment(node) if node.is_collection_element() else None
 
@@ -459,6 +463,21 @@ class RecipeParser(RecipeReader):
 
         return self._patch_add(path_stack, original_value)
 
+    def _sync_element_comments(self) -> None:
+        """
+        Elements of a list share their line, and the comment on it, with their first key. As that key may have been
+        added, removed, or changed by a patch, the elements need to be kept up-to-date.
+        """
+
+        def _sync_comment(node: Node, _: StrStack) -> None:
+            if not node.is_collection_element():
+                return
+            first_key = RecipeReader._first_non_comment(node)
+            if first_key is not None:
+                node.comment = first_key.comment
+
+        traverse_all(self._root, _sync_comment)
+
     @staticmethod
     def _is_json_equal(lhs: JsonType, rhs: JsonType) -> bool:
         """
@@ -557,6 +576,7 @@ class RecipeParser(RecipeReader):
 
         # Update the selector table and modified flag, if the operation succeeded.
         if is_successful and op != "test":
+            self._sync_element_comments()
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
             # TODO technically this doesn't handle a no-op.
-- 
2.43.0


From ff32d127573748dbfd935a8c3a9fc0b0baa965a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 21/63] fix: comment lines with another indentation no longer
 corrupt the recipe; keys with only comments in them are null

---
 conda_recipe_manager/parser/recipe_reader.py | 50 ++++++++++++++++++--
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 146b04b..dac71c4 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -265,6 +265,31 @@ class RecipeReader(IsModifiable):
         # Anything else is stored on one line, as it is when it is read.
         return Node(cast(Primitives, value), list_member_flag=True)
 
+    @staticmethod
+    def _align_comment(indent: int, cur_indent: int, last_node: Node, next_lines: list[str]) -> int:
+        """
+        Comments may be indented in any way. Adjusts the indentation of a line that only consists of a comment, such that
+        it lines up with what surrounds it.
+
+        :param indent: Indentation of the comment
+        :param cur_indent: Indentation of the previous line
+        :param last_node: Node that represents the previous line
+        :param next_lines: Lines that follow the comment
+        :returns: The indentation that the comment should have.
+        """
+        next_indent: Final[int] = next(
+            (num_tab_spaces(line) for line in next_lines if line.strip() and not line.strip().startswith("#")), 0
+        )
+        # The deepest level that the previous line could have started.
+        max_indent = cur_indent
+        if last_node.is_collection_element():
+            max_indent += TAB_SPACE_COUNT
+            last_node = last_node.children[0]
+        if last_node.is_empty_key():
+            max_indent += TAB_SPACE_COUNT
+        indent -= indent % TAB_SPACE_COUNT
+        return max(next_indent, min(indent, max_indent))
+
     def _set_on_schema_version(self) -> tuple[int, re.Pattern[str]]:
         """
         Helper function for `_render_jinja_vars()` that initializes `schema_version`-specific substitution details.
@@ -476,6 +501,8 @@ class RecipeReader(IsModifiable):
 
             new_indent = num_tab_spaces(line)
             new_node = RecipeReader._parse_line_node(clean_line)
+            if new_node.is_comment():
+                new_indent = RecipeReader._align_comment(new_indent, cur_indent, last_node, lines[line_idx:])
             # If the last node ended (pre-comments) with a |, >, or other multi-line character, reset the value to be a
             # list of the following extra-indented strings
             multiline_re_match = Regex.MULTILINE.match(line)
@@ -743,15 +770,21 @@ class RecipeReader(IsModifiable):
             # Nodes representing collections in a list have nothing to render
             lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
 
+        is_list_mark_found = False
         for child in node.children:
             # Top-level empty-key edge case: Top level keys should have no additional indentation.
             extra_tab = "" if depth < 0 else TAB_AS_SPACES
-            # Comments in a list are indented to list-level, but do not include a list `-` mark
+            # Comments in a list are indented to list-level, but do not include a list `-` mark. The same applies to
+            # comments that are found before the key that carries the list mark.
             if child.is_comment():
+                if depth >= 0 and node.is_collection_element() and not is_list_mark_found:
+                    extra_tab = ""
                 lines.append(f"{spaces}{extra_tab}" f"{child.comment}".rstrip())
+                continue
+            is_list_mark_found = True
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
-            elif child.is_empty_key():
+            if child.is_empty_key():
                 # The first key of a collection element carries the list mark.
                 key_prefix = f"{spaces}{extra_tab}"
                 if depth >= 0 and node.is_collection_element() and child is RecipeReader._first_non_comment(node):
@@ -765,7 +798,7 @@ class RecipeReader(IsModifiable):
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
             # should be left where they are. If the section ends in a multiline string, that string may already contain
             # the blank line.
-            if depth < 0 and not child.is_comment() and lines[-1:] != [""]:
+            if depth < 0 and lines[-1:] != [""]:
                 lines.append("")
 
     def render(self) -> str:
@@ -810,6 +843,11 @@ class RecipeReader(IsModifiable):
             return
 
         key = cast(str, node.value)
+        # Keys that only contain comments point to `None`
+        if node.key_flag and all(child.is_comment() for child in node.children):
+            data[key] = None
+            return
+
         for child in node.children:
             # Ignore comment-only lines
             if child.is_comment():
@@ -846,7 +884,8 @@ class RecipeReader(IsModifiable):
             if child.list_member_flag:
                 if not data.get(key):
                     data[key] = []
-                data[key].append(value)
+                # Elements that lost all of their keys are written as if they are `null`
+                data[key].append(None if isinstance(value, SentinelType) else value)
                 continue
 
             # Other (non list and non-empty-key) leaf nodes set values directly
@@ -952,7 +991,8 @@ class RecipeReader(IsModifiable):
                 return [return_value] if node.children[0].list_member_flag else return_value
         # Leaf nodes can return their value directly
         elif node.is_leaf():
-            return_value = cast(Primitives, node.value)
+            # Elements that lost all of their keys are written as if they are `null`
+            return_value = None if isinstance(node.value, SentinelType) else cast(Primitives, node.value)
             if not sub_vars:
                 return return_value
         else:
-- 
2.43.0


From d9b060c6dbe4c011d28dc2b4f070f657a1e99e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 22/63] fix: substitutions evaluate whole expressions, anywhere
 in a string, and do not re-interpret other strings; references are found by
 name

---
 conda_recipe_manager/parser/_types.py        |   2 +-
 conda_recipe_manager/parser/recipe_reader.py | 221 +++++++++++--------
 2 files changed, 130 insertions(+), 93 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index f0c0649..7b19368 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -181,7 +181,7 @@ class Regex:
     JINJA_FUNCTION_REPLACE: Final[re.Pattern[str]] = re.compile(r"\|\s*(replace)\((.*)\)")
     JINJA_FUNCTION_IDX_ACCESS: Final[re.Pattern[str]] = re.compile(r"(\w+)\[(\d+)\]")
     JINJA_FUNCTION_ADD_CONCAT: Final[re.Pattern[str]] = re.compile(
-        r"([\"\']?[\w\.]+[\"\']?)\s*\+\s*([\"\']?[\w\.]+[\"\']?)"
+        r"([\"\']?[\w\.]+[\"\']?)(?:\s*\+\s*([\"\']?[\w\.]+[\"\']?))+"
     )
     # `match()` is a JINJA function available in the V1 recipe format
     JINJA_FUNCTION_MATCH: Final[re.Pattern[str]] = re.compile(r"match\(.*,.*\)")
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index dac71c4..40be306 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -6,6 +6,7 @@
 from __future__ import annotations
 
 import ast
+import copy
 import hashlib
 import json
 import re
@@ -70,7 +71,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -302,41 +303,6 @@ class RecipeReader(IsModifiable):
             case SchemaVersion.V1:
                 return 3, Regex.JINJA_V1_SUB
 
-    @staticmethod
-    def _set_key_and_matches(
-        key: str,
-    ) -> tuple[str, Optional[re.Match[str]], Optional[re.Match[str]], Optional[re.Match[str]], Optional[re.Match[str]]]:
-        """
-        Helper function for `_render_jinja_vars()` that takes a JINJA statement (string inside the braces) and attempts
-        to match and apply any currently supported "JINJA functions" to the statement.
-
-        :param key: Sanitized key to perform JINJA functions on.
-        :returns: The modified key, if any JINJA functions apply. Also returns any applicable match objects.
-        """
-        # TODO add support for REPLACE
-
-        # Example: {{ name | lower }}
-        lower_match = Regex.JINJA_FUNCTION_LOWER.search(key)
-        if lower_match:
-            key = key.replace(lower_match.group(), "").strip()
-
-        # Example: {{ name | upper }}
-        upper_match = Regex.JINJA_FUNCTION_UPPER.search(key)
-        if upper_match:
-            key = key.replace(upper_match.group(), "").strip()
-
-        # Example: {{ name[0] }}
-        idx_match = Regex.JINJA_FUNCTION_IDX_ACCESS.search(key)
-        if idx_match:
-            key = key.replace(f"[{cast(str, idx_match.group(2))}]", "").strip()
-
-        # Addition/concatenation. Note the key(s) will need to be evaluated later.
-        # Example: {{ build_number + 100 }}
-        # Example: {{ version + ".1" }}
-        add_concat_match = Regex.JINJA_FUNCTION_ADD_CONCAT.search(key)
-
-        return key, lower_match, upper_match, idx_match, add_concat_match
-
     def _eval_jinja_token(self, s: str) -> JsonType:
         """
         Given a string that matches one of the two groups in the `JINJA_FUNCTION_ADD_CONCAT` regex, evaluate the
@@ -364,61 +330,118 @@ class RecipeReader(IsModifiable):
             return s[1:-1]
         return s
 
-    def _render_jinja_vars(self, s: str) -> JsonType:
+    def _eval_jinja_expression(self, expression: str) -> Optional[str]:
         """
-        Helper function that replaces Jinja substitutions with their actual set values.
+        Evaluates the statement found inside the braces of a JINJA substitution. An expression is only evaluated if all
+        of it is supported.
 
-        :param s: String to be re-rendered
-        :returns: The original value, augmented with Jinja substitutions. Types are re-rendered to account for multiline
-            strings that may have been "normalized" prior to this call.
+        :param expression: Expression to evaluate
+        :returns: The text to replace the substitution with. If the expression can't be resolved, `None` is returned.
         """
-        # TODO: Consider tokenizing expressions over using regular expressions. The scope of this function has expanded
-        # drastically.
+        # TODO add support for REPLACE
+        # Example: {{ name | lower }}
+        term, *filters = [part.strip() for part in expression.split("|")]
+        if any(name not in {"lower", "upper"} for name in filters):
+            return None
+
+        # Example: {{ name[0] }}
+        idx_match = Regex.JINJA_FUNCTION_IDX_ACCESS.fullmatch(term)
+        key: Final[str] = term if idx_match is None else cast(str, idx_match.group(1))
+
+        if key in self._vars_tbl:
+            # Replace value as a string. The caller will re-interpret the entire value.
+            value = str(self._vars_tbl[key])
+            if idx_match:
+                idx = int(cast(str, idx_match.group(2)))
+                # From our research, it looks like string indexing on JINJA variables is almost exclusively used
+                # get the first character in a string. If the index is out of bounds, we will default to the
+                # variable's value as a fall-back.
+                if 0 <= idx < len(value):
+                    value = value[idx]
+            for name in filters:
+                value = value.lower() if name == "lower" else value.upper()
+            return value
+
+        # Addition/concatenation.
+        # Example: {{ build_number + 100 }}
+        # Example: {{ version + ".1" }}
+        if not filters and Regex.JINJA_FUNCTION_ADD_CONCAT.fullmatch(term):
+            total, *rest = [self._eval_jinja_token(token.strip()) for token in term.split("+")]
+            for token in rest:
+                # Perform arithmetic addition, IFF both sides are numeric types. Otherwise, concat two strings.
+                if isinstance(total, (int, float)) and isinstance(token, (int, float)):
+                    total += token
+                else:
+                    total = str(total) + str(token)
+            # Strings are quoted. This ensures YAML will interpret the type correctly.
+            return f'"{total}"' if isinstance(total, str) else str(total)
 
+        return None
+
+    def _sub_jinja_vars(self, s: str) -> str:
+        """
+        Helper function that replaces Jinja substitutions in a string with their actual set values.
+
+        :param s: String to replace substitutions in
+        :returns: The original string, with Jinja substitutions replaced. Any variables that can't be resolved will be
+            escaped with `${{ }}`.
+        """
         start_idx, sub_regex = self._set_on_schema_version()
 
-        # Search the string, replacing all substitutions we can recognize
-        for match in cast(list[str], sub_regex.findall(s)):
+        def _sub(match: re.Match[str]) -> str:
             # The regex guarantees the string starts and ends with double braces
-            key = match[start_idx:-2].strip()
-            # Check for and interpret common JINJA functions
-            key, lower_match, upper_match, idx_match, add_concat_match = RecipeReader._set_key_and_matches(key)
-
-            if add_concat_match:
-                lhs = self._eval_jinja_token(cast(str, add_concat_match.group(1)))
-                rhs = self._eval_jinja_token(cast(str, add_concat_match.group(2)))
-                # By default concat two strings and quote them. This ensures YAML will interpret the type correctly.
-                value = f'"{str(lhs) + str(rhs)}"'
-                # Otherwise, perform arithmetic addition, IFF both sides are numeric types.
-                if isinstance(lhs, (int, float)) and isinstance(rhs, (int, float)):
-                    value = str(lhs + rhs)
-                s = s.replace(match, value)
-            elif key in self._vars_tbl:
-                # Replace value as a string. Re-interpret the entire value before returning.
-                value = str(self._vars_tbl[key])
-                if lower_match:
-                    value = value.lower()
-                if upper_match:
-                    value = value.upper()
-                if idx_match:
-                    idx = int(cast(str, idx_match.group(2)))
-                    # From our research, it looks like string indexing on JINJA variables is almost exclusively used
-                    # get the first character in a string. If the index is out of bounds, we will default to the
-                    # variable's value as a fall-back.
-                    if 0 <= idx < len(value):
-                        value = value[idx]
-                s = s.replace(match, value)
+            value = self._eval_jinja_expression(match.group()[start_idx:-2].strip())
+            if value is not None:
+                return value
             # $-Escaping the unresolved variable does a few things:
             #   - Clearly identifies the value as an unresolved variable
             #   - Normalizes the substitution syntax with V1
             #   - Ensures the returned value is YAML-parsable
-            elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
-                s = f"${s}"
+            if self._schema_version == SchemaVersion.V0 and s[: match.start()][-1:] != "$":
+                return f"${match.group()}"
+            return match.group()
+
+        return sub_regex.sub(_sub, s)
+
+    def _render_jinja_vars(self, s: str) -> JsonType:
+        """
+        Helper function that replaces Jinja substitutions with their actual set values.
+
+        :param s: String to be re-rendered
+        :returns: The original value, augmented with Jinja substitutions. Values with substitutions are re-interpreted,
+            as variables may change the type.
+        """
+        # TODO: Consider tokenizing expressions over using regular expressions. The scope of this function has expanded
+        # drastically.
+
+        text: Final[str] = self._sub_jinja_vars(s)
+        # The string was interpreted when it was read. Interpreting it again may turn it into something else.
+        if text == s:
+            return s
         try:
-            return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+            value = cast(JsonType, yaml.load(text, Loader=SafeLoader))
         except yaml.YAMLError:
             # Not every value of a variable is valid YAML on its own. For example: `*`
-            return s
+            return text
+        # A variable may stand for any kind of value. A string that contains a variable is never a collection and may
+        # contain symbols like ` #` or `: `.
+        _, sub_regex = self._set_on_schema_version()
+        is_mixed: Final[bool] = sub_regex.fullmatch(s) is None
+        if not isinstance(value, (*PRIMITIVES_TUPLE, dict, list)) or (is_mixed and isinstance(value, (str, dict, list))):
+            return text
+        return value
+
+    def _sub_vars_in_value(self, value: JsonType, sub_vars: bool) -> JsonType:
+        """
+        Optionally replaces Jinja substitutions in a value that has been read.
+
+        :param value: Value that may be, or may contain, strings
+        :param sub_vars: If set to False, the value is returned as-is
+        :returns: The value, augmented with Jinja substitutions if requested.
+        """
+        # The caller should not be able to change the recipe through the value it reads.
+        value = copy.deepcopy(value)
+        return RecipeReader._parse_yaml_recursive_sub(value, self._render_jinja_vars) if sub_vars else value
 
     def _init_vars_tbl(self) -> None:
         """
@@ -434,12 +457,17 @@ class RecipeReader(IsModifiable):
                 for line in cast(list[str], Regex.JINJA_V0_SET_LINE.findall(self._init_content)):
                     key = line[line.find("set") + len("set") : line.find("=")].strip()
                     value = line[line.find("=") + len("=") : line.find("%}")].strip()
+                    # JINJA constants may be lower-case
+                    if value in {"true", "false", "none"}:
+                        value = value.capitalize()
                     try:
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                # NOTE: Reading the section as an object preserves the types of the variables.
+                context: Final[JsonType] = cast(dict[str, JsonType], self.render_to_object()).get("context", None)
+                self._vars_tbl = context if isinstance(context, dict) else {}
 
     def _rebuild_selectors(self) -> None:
         """
@@ -815,6 +843,7 @@ class RecipeReader(IsModifiable):
             for key, val in self._vars_tbl.items():
                 # Double quote strings
                 if isinstance(val, str):
+                    val = val.replace("\\", "\\\\").replace("\n", "\\n")
                     val = f'"{val}"'
                 lines.append(f"{{% set {key} = {val} %}}")
             # Add spacing if variables have been set
@@ -856,10 +885,14 @@ class RecipeReader(IsModifiable):
             # Handle multiline strings and variable replacement
             value = normalize_multiline_strings(child.value, child.multiline_variant)
             if isinstance(value, str):
-                if replace_variables:
-                    value = self._render_jinja_vars(value)
-                elif child.multiline_variant != MultilineVariant.NONE:
+                if child.multiline_variant != MultilineVariant.NONE:
                     value = cast(str, yaml.load(value, Loader=SafeLoader))
+                    if replace_variables:
+                        value = self._sub_jinja_vars(value)
+                else:
+                    value = self._sub_vars_in_value(value, replace_variables)
+            elif isinstance(value, (list, dict)):
+                value = self._sub_vars_in_value(value, replace_variables)
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
@@ -982,19 +1015,17 @@ class RecipeReader(IsModifiable):
                         cast(list[str], node.children[0].value), node.children[0].multiline_variant
                     ),
                 )
-                if sub_vars:
-                    return self._render_jinja_vars(multiline_str)
-                return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
+                text = cast(str, yaml.load(multiline_str, Loader=SafeLoader))
+                return self._sub_jinja_vars(text) if sub_vars else text
             return_value = cast(Primitives, node.children[0].value)
             # The value was interpreted when it was read. Interpreting a string again may turn it into something else.
-            if not sub_vars:
-                return [return_value] if node.children[0].list_member_flag else return_value
+            return_value = self._sub_vars_in_value(return_value, sub_vars)
+            return [return_value] if node.children[0].list_member_flag else return_value
         # Leaf nodes can return their value directly
         elif node.is_leaf():
             # Elements that lost all of their keys are written as if they are `null`
             return_value = None if isinstance(node.value, SentinelType) else cast(Primitives, node.value)
-            if not sub_vars:
-                return return_value
+            return self._sub_vars_in_value(return_value, sub_vars)
         else:
             # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
             # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
@@ -1198,15 +1229,21 @@ class RecipeReader(IsModifiable):
         def _init_re() -> re.Pattern[str]:
             match self._schema_version:
                 case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + var + r".*}}")
+                    return re.compile(r"{{(.*?)}}")
                 case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + var + r".*}}")
+                    return re.compile(r"\${{(.*?)}}")
 
-        var_re: Final[re.Pattern[str]] = _init_re()
+        sub_re: Final[re.Pattern[str]] = _init_re()
+        # The name of a variable may be found in the name of another, in quotes, or as the name of a filter.
+        var_re: Final[re.Pattern[str]] = re.compile(r"(?<![\w.])" + re.escape(var) + r"(?!\w)")
+        not_var_re: Final[re.Pattern[str]] = re.compile(r"'[^']*'|\"[^\"]*\"|\|\s*\w+")
 
         def _collect_var_refs(node: Node, path: StrStack) -> None:
             # Variables can only be found inside string values.
-            if isinstance(node.value, str) and var_re.search(node.value):
+            text = "\n".join(map(str, node.value)) if isinstance(node.value, list) else node.value
+            if isinstance(text, str) and any(
+                var_re.search(not_var_re.sub(" ", expression)) for expression in cast(list[str], sub_re.findall(text))
+            ):
                 path_list.append(stack_path_to_str(path))
 
         traverse_all(self._root, _collect_var_refs)
-- 
2.43.0


From 3581b78f22c74d29aaa6376e5faece1ea26080f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 23/63] fix: setting, deleting, and patching variables of V1
 recipes changes /context

---
 conda_recipe_manager/parser/recipe_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 6f10498..3c04b4c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -28,7 +28,7 @@ from conda_recipe_manager.parser._node import Node
 from conda_recipe_manager.parser._traverse import remap_child_indices_virt_to_phys, traverse, traverse_all
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
@@ -98,6 +98,13 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
+        # Variables in V1 recipes are a part of the parse tree.
+        if self._schema_version == SchemaVersion.V1:
+            if self._vars_tbl:
+                self.patch({"op": "add", "path": RecipeParser.append_to_path("/context", var), "value": value})
+            else:
+                self.patch({"op": "add", "path": "/context", "value": {var: value}})
+            return
         self._vars_tbl[var] = value
         self._is_modified = True
 
@@ -109,6 +116,9 @@ class RecipeParser(RecipeReader):
         """
         if not var in self._vars_tbl:
             return
+        if self._schema_version == SchemaVersion.V1:
+            self.patch({"op": "remove", "path": RecipeParser.append_to_path("/context", var)})
+            return
         del self._vars_tbl[var]
         self._is_modified = True
 
@@ -579,6 +589,9 @@ class RecipeParser(RecipeReader):
             self._sync_element_comments()
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
+            # The variables may have been patched, too.
+            if self._schema_version == SchemaVersion.V1:
+                self._init_vars_tbl()
             # TODO technically this doesn't handle a no-op.
             self._is_modified = True
 
-- 
2.43.0


From fbd1736f57d314861641970049d67554b4afef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:21 +0000
Subject: [PATCH 24/63] fix: Jinja statements in comments and at the end of
 lines do not swallow the line break

---
 conda_recipe_manager/parser/_types.py        | 7 +++++--
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 7b19368..d095b4a 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -164,9 +164,12 @@ class Regex:
 
     ## Jinja regular expressions ##
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
-    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})\n")
+    # Statements that are on a line with something else do not consume the line.
+    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(
+        r"^[ \t]*({%.*%}|{#.*#})[ \t]*\r?\n|({%.*%}|{#.*#})(?=[ \t]*\r?\n)", re.MULTILINE
+    )
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
-        r"{%\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
+        r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
     )
     # Useful for replacing the older `{{` JINJA substitution with the newer `${{` WITHOUT accidentally doubling-up the
     # newer syntax when multiple replacements are possible.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 40be306..dcbd344 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -456,7 +456,7 @@ class RecipeReader(IsModifiable):
                 # Find all the set statements and record the values
                 for line in cast(list[str], Regex.JINJA_V0_SET_LINE.findall(self._init_content)):
                     key = line[line.find("set") + len("set") : line.find("=")].strip()
-                    value = line[line.find("=") + len("=") : line.find("%}")].strip()
+                    value = line[line.find("=") + len("=") : line.find("%}")].removesuffix("-").strip()
                     # JINJA constants may be lower-case
                     if value in {"true", "false", "none"}:
                         value = value.capitalize()
-- 
2.43.0


From 9dc7b9398e6f0c38881b5b4326f6e81f00606828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:49 +0000
Subject: [PATCH 25/63] fix: strings with substitutions keep the quotes that
 the text around those needs

---
 conda_recipe_manager/parser/_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 2fabac9..bbf46e8 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -161,7 +161,8 @@ def _is_mangled_without_quotes(s: str) -> bool:
     :param s: String to check
     :returns: True if the string needs to be quoted to be preserved. False otherwise.
     """
-    # JINJA statements are not valid YAML and cannot be quoted.
+    # JINJA statements are not valid YAML, but the text around them has to be.
+    s = Regex.JINJA_V0_SUB.sub("x", s)
     if "{{" in s or "{%" in s:
         return False
     # Most strings do not need to be parsed to find out.
@@ -203,6 +204,9 @@ def stringify_yaml(
     if isinstance(val, str):
         quoted_val: Final[str] = quote_special_strings(val, multiline_variant)
         if multiline_variant == MultilineVariant.NONE and quoted_val == val and _is_mangled_without_quotes(val):
+            # Quotes in JINJA statements can't be escaped.
+            if Regex.JINJA_V0_SUB.search(val) and '"' in val and "'" not in val:
+                return f"'{val}'"
             return json.dumps(val)
         return quoted_val
     return val
-- 
2.43.0


From 969050a85bb2ad3f11302daaed575cbde78dbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:51 +0000
Subject: [PATCH 26/63] fix: failed downloads of archives are errors, and leave
 nothing behind for the next attempt

---
 .../fetcher/http_artifact_fetcher.py          | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..f2fd3a4 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,11 @@
 
 from __future__ import annotations
 
+import lzma
+import shutil
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -68,6 +71,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         :raises FetchError: If an issue occurred while extracting the archive.
         """
         try:
+            # Do not mix the files of this archive with what is left of a previous attempt.
+            if self._uncompressed_archive_path.exists():
+                shutil.rmtree(self._uncompressed_archive_path)
             match self._archive_path:
                 case path if tarfile.is_tarfile(path):
                     self._archive_type = ArtifactArchiveType.TARBALL
@@ -82,7 +88,15 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        except (
+            tarfile.TarError,
+            zipfile.BadZipFile,
+            zlib.error,
+            lzma.LZMAError,
+            EOFError,  # The compressed data of a tarball ends early
+            RuntimeError,  # Encrypted ZIP file, or a ZIP feature that is not supported
+            ValueError,
+        ) as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
@@ -93,9 +107,15 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
 
         :raises FetchError: If an issue occurred while downloading or extracting the archive.
         """
+        # What was fetched by a previous call is overwritten.
+        self._successfully_fetched = False
+
         # Buffered download approach
         try:
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
+            # An error page is not the artifact, even if it looks like one.
+            if response.status_code // 100 in {4, 5}:
+                raise requests.exceptions.HTTPError(f"Unexpected HTTP status: {response.status_code}")
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
                     if not chunk:
-- 
2.43.0


From a67cd0ad5d5a29d40744cdd89d2bf55827ee582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 27/63] fix: git sources are checked out at their tag or
 revision, and local repositories can be fetched

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..1004ded 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                # The temporary directory already exists.
+                shutil.copytree(self._git_target.url, self._temp_dir_path, symlinks=True, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
@@ -104,7 +105,7 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                repo.git.checkout(git_target, force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From af359e77291126309b8a26410026972cf7e16bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:05 +0000
Subject: [PATCH 28/63] fix: recipes with mirrors, or with an empty source
 section, have artifact fetchers

---
 conda_recipe_manager/fetcher/artifact_fetcher.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/artifact_fetcher.py b/conda_recipe_manager/fetcher/artifact_fetcher.py
index e1384ed..ae6bbc2 100644
--- a/conda_recipe_manager/fetcher/artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/artifact_fetcher.py
@@ -66,6 +66,9 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
     parsed_sources = cast(
         dict[str, Primitives] | list[dict[str, Primitives]], recipe.get_value("/source", sub_vars=True, default=[])
     )
+    # The section may be present without any content.
+    if not isinstance(parsed_sources, (dict, list)):
+        return sources
     # TODO Handle selector evaluation/determine how common it is to have a selector in `/source`
 
     # Normalize to a list to handle both single and multi-source cases.
@@ -82,7 +85,11 @@ def from_recipe(recipe: RecipeReader, ignore_unsupported: bool = False) -> dict[
         # NOTE: `optional_str()` is used to force evaluation of potentially unknown types to strings for input
         #       sanitation purposes.
         # NOTE: `url` is the same for both V0 and V1 formats.
-        url = optional_str(parsed_source.get("url"))
+        raw_url = parsed_source.get("url")
+        # A list of URLs provides mirrors of the same artifact.
+        if isinstance(raw_url, list):
+            raw_url = raw_url[0] if raw_url else None
+        url = optional_str(raw_url)
         git_url = optional_str(parsed_source.get(_render_git_key(recipe, "git_url")))
 
         src_name = recipe_name if len(parsed_sources) == 1 else f"{recipe_name}_{i}"
-- 
2.43.0


From 928849256bdac183262e5d870be71d64e5d86a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 29/63] fix: a patch file that cannot be applied as a whole
 leaves the recipe as it is

---
 conda_recipe_manager/commands/patch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..7615984 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -29,13 +29,13 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
+        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8")))
     except json.JSONDecodeError:
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
-        contents_recipe = recipe_file_path.read_text()
+        contents_recipe = recipe_file_path.read_text(encoding="utf-8")
     except IOError:
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
@@ -81,5 +81,7 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
+    # A set of patches is applied as a whole, or not at all.
+    if error_code == ExitCode.SUCCESS:
+        recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
     sys.exit(error_code)
-- 
2.43.0


From 945834a17dced86331c3abc6c40c30a335da7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:46 +0000
Subject: [PATCH 30/63] fix: quoted CBC values, like "3.10", stay strings; CBC
 files without variables can be read

---
 conda_recipe_manager/parser/cbc_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/cbc_parser.py b/conda_recipe_manager/parser/cbc_parser.py
index 09489b0..0570a52 100644
--- a/conda_recipe_manager/parser/cbc_parser.py
+++ b/conda_recipe_manager/parser/cbc_parser.py
@@ -61,6 +61,10 @@ class CbcParser(RecipeReader):
         #                selectors is available (so py>=38 and py<=310 wouldn't work). To be confirmed though."
 
         parsed_contents: Final[_CbcType] = cast(_CbcType, self.get_value("/"))
+        # Files without any variables do not contain a dictionary.
+        if not isinstance(parsed_contents, dict):
+            return
+
         for variable, value_list in parsed_contents.items():
             if not isinstance(value_list, list):
                 continue
@@ -69,8 +73,10 @@ class CbcParser(RecipeReader):
             if variable == "zip_keys":
                 continue
 
-            for i, value in enumerate(value_list):
+            for i in range(len(value_list)):
                 path = f"/{variable}/{i}"
+                # NOTE: Reading the value directly preserves the type of quoted values, like `"3.10"`.
+                value = cast(Primitives, self.get_value(path))
                 # TODO add V1 support for CBC files? Is there a V1 CBC format?
                 selector = None
                 try:
-- 
2.43.0


From 4588558a1fbcd86823b53a51143ebc65370c4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 31/63] fix: dependencies in empty, single-value and
 conditional sections are read correctly

---
 conda_recipe_manager/parser/recipe_reader.py  | 17 ++++--
 .../parser/recipe_reader_deps.py              | 61 +++++++++++++++----
 2 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index dcbd344..ad1f062 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1159,13 +1159,20 @@ class RecipeReader(IsModifiable):
 
         # Convenience function that reduces repeated logic between regular and multi-output recipes
         def _scan_requirements(path_prefix: str = "") -> None:
+            # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
+            # in-between dependencies.
+            requirements = self.get_value(f"{path_prefix}/requirements", {})
+            if not isinstance(requirements, dict):
+                return
             for section in req_sections:
                 section_path = f"{path_prefix}/requirements/{section}"
-                # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
-                # in-between dependencies.
-                dependencies = cast(list[str], self.get_value(section_path, []))
-                for i in range(len(dependencies)):
-                    paths.append(f"{section_path}/{i}")
+                dependencies = requirements.get(section)
+                if isinstance(dependencies, list):
+                    for i in range(len(dependencies)):
+                        paths.append(f"{section_path}/{i}")
+                # A section can be a single dependency
+                elif isinstance(dependencies, str):
+                    paths.append(section_path)
 
         # Scan for both multi-output and non-multi-output recipes. Here is an example of a recipe that has both:
         #   https://github.com/AnacondaRecipes/curl-feedstock/blob/master/recipe/meta.yaml
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..730eda2 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+from collections.abc import Iterator
 from typing import Final, Optional, cast
 
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE
@@ -16,6 +17,7 @@ from conda_recipe_manager.parser.dependency import (
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
 from conda_recipe_manager.parser.types import SchemaVersion
+from conda_recipe_manager.types import JsonType
 
 
 class RecipeReaderDeps(RecipeReader):
@@ -70,6 +72,44 @@ class RecipeReaderDeps(RecipeReader):
         except KeyError:
             return None
 
+    def _list_section_dependencies(
+        self, deps: JsonType, path: str, condition: Optional[str] = None
+    ) -> Iterator[tuple[str, str, Optional[SelectorParser]]]:
+        """
+        Iterates over all the dependencies found in a dependency section. Sections may be empty, be a single dependency,
+        or contain the `if/then/else` objects of the V1 format. `run_exports` may be grouped by strength, in the V1
+        format.
+
+        :param deps: Value found in the section.
+        :param path: Path to that value
+        :param condition: (Optional) Condition of the `if/then/else` object that the value is a part of
+        :returns: Iterates over tuples of the dependency string, the path to it, and the selector (if there is any).
+        """
+        match deps:
+            case str():
+                dep = RecipeReaderDeps._sanitize_dep(deps)
+                if dep is not None:
+                    selector = (
+                        self._fetch_optional_selector(path)
+                        if condition is None
+                        else SelectorParser(condition, SchemaVersion.V1)
+                    )
+                    yield dep, path, selector
+            case list():
+                for i, value in enumerate(deps):
+                    yield from self._list_section_dependencies(value, f"{path}/{i}", condition)
+            case {"if": if_condition}:
+                for key, branch in (("then", str(if_condition)), ("else", f"not ({if_condition})")):
+                    if condition is not None:
+                        branch = f"({condition}) and ({branch})"
+                    yield from self._list_section_dependencies(deps.get(key), f"{path}/{key}", branch)
+            case dict():
+                for key, value in deps.items():
+                    yield from self._list_section_dependencies(value, f"{path}/{key}", condition)
+            case _:
+                # Anything else, like an empty section, is not a dependency.
+                pass
+
     def get_package_names_to_path(self) -> dict[str, str]:
         """
         Get a map containing all the packages (artifacts) named in a recipe to their paths in the recipe structure.
@@ -118,31 +158,30 @@ class RecipeReaderDeps(RecipeReader):
             if path == ROOT_NODE_VALUE:
                 root_package = package
 
-            requirements = cast(
-                dict[str, list[Optional[str]]],
-                self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
+            requirements = self.get_value(
+                RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True
             )
             dep_map[package] = []
+            # Skip empty sections
+            if not isinstance(requirements, dict):
+                continue
+
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
                 # Unrecognized sections will be skipped as "junk" data
                 if section is None:
                     continue
 
-                for i, dep in enumerate(deps):
-                    dep = RecipeReaderDeps._sanitize_dep(dep)
-                    if dep is None:
-                        continue
-
-                    # NOTE: `get_dependency_paths()` uses the same approach for calculating dependency paths.
-                    dep_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}/{i}")
+                # NOTE: `get_dependency_paths()` uses the same approach for calculating dependency paths.
+                section_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}")
+                for dep, dep_path, selector in self._list_section_dependencies(deps, section_path):
                     dep_map[package].append(
                         Dependency(
                             required_by=package,
                             path=dep_path,
                             type=section,
                             data=dependency_data_from_str(dep),
-                            selector=self._fetch_optional_selector(dep_path),
+                            selector=selector,
                         )
                     )
 
-- 
2.43.0


From 7623025a4a3ec123d7ee080e453d6f5b273de469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 32/63] fix: dependencies with variables are added to V0
 recipes with the V0 syntax

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 2b04bbd..df103c0 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -16,6 +16,7 @@ from conda_recipe_manager.parser.dependency import (
 from conda_recipe_manager.parser.enums import SelectorConflictMode
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
+from conda_recipe_manager.parser.types import SchemaVersion
 from conda_recipe_manager.types import JsonType
 
 # Dependency validation constants
@@ -121,7 +122,11 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             except KeyError:
                 pass
 
-        value: JsonType = dependency_data_render_as_str(dep.data)
+        dep_str = dependency_data_render_as_str(dep.data)
+        # Reading dependencies escapes unresolved variables with the V1 syntax, regardless of the schema.
+        if self._schema_version == SchemaVersion.V0:
+            dep_str = dep_str.replace("${{", "{{")
+        value: JsonType = dep_str
         # This allows us to create new lists for dependency sections that do not currently exist.
         if is_new_section:
             value = [value]
-- 
2.43.0


From b2c5e2ce16d105d8d36924dd87dac864bebef144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 33/63] fix: SPDX license names match their license, even with
 words like "or" in them

---
 conda_recipe_manager/licenses/spdx_utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/licenses/spdx_utils.py b/conda_recipe_manager/licenses/spdx_utils.py
index ab2969b..8225278 100644
--- a/conda_recipe_manager/licenses/spdx_utils.py
+++ b/conda_recipe_manager/licenses/spdx_utils.py
@@ -44,7 +44,9 @@ class SpdxUtils:
             license_name = license_data["name"]
             # SPDX IDs are unique and used for SPDX validation. Commonly recipes use variations on names or IDs, so we
             # want to map both options to the same ID.
-            self._license_matching_table[license_name] = license_id
+            # Several IDs can have the same name. In that case, prefer the ID that is not deprecated.
+            if not license_data["isDeprecatedLicenseId"] or license_name not in self._license_matching_table:
+                self._license_matching_table[license_name] = license_id
             self._license_matching_table[license_id] = license_id
             self._license_ids.add(license_id)
 
@@ -74,13 +76,17 @@ class SpdxUtils:
         if license_field in self._license_ids:
             return license_field
 
+        # The same goes for names, some of which contain the words checked for below.
+        if license_field.strip() in self._license_matching_table:
+            return self._license_matching_table[license_field.strip()]
+
         sanitized_license = license_field.strip().upper()
 
         # TODO: Improve this logic to support SPDX expressions.
         # Don't simplify compound licenses that might get accidentally simplified
-        for op in SPDX_EXPRESSION_OPS:
-            if op in sanitized_license:
-                return None
+        # NOTE: Only whole words are operators. "WORK" does not contain an "OR".
+        if SPDX_EXPRESSION_OPS & set(sanitized_license.split()):
+            return None
         if "," in sanitized_license:
             return None
 
-- 
2.43.0


From 5866f74c81d9417cbdc8f680300d4b9387271c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:50 +0000
Subject: [PATCH 34/63] fix: the graph shell ends on Ctrl-D, plots packages
 without dependencies, and reads recipes as UTF-8

---
 conda_recipe_manager/commands/graph.py                |  6 +++++-
 conda_recipe_manager/grapher/recipe_graph.py          | 11 ++++++++---
 .../grapher/recipe_graph_from_disk.py                 |  2 +-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/commands/graph.py b/conda_recipe_manager/commands/graph.py
index 9c62907..6fbd111 100644
--- a/conda_recipe_manager/commands/graph.py
+++ b/conda_recipe_manager/commands/graph.py
@@ -58,7 +58,11 @@ def graph(path: Path) -> None:
     print()
     print("== Main menu ==")
     while True:
-        command = input("> ").lower()
+        try:
+            command = input("> ").lower()
+        except EOFError:
+            # Ctrl-D
+            command = "exit"
         match command.split():
             case ["help"] | ["h"]:
                 print(
diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..7d2589e 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -166,9 +166,14 @@ class RecipeGraph:
                 case GraphDirection.NEEDED_BY:
                     plt.title(f"{graph_type.capitalize()} Graph of Packages that Need {package}")
 
-            sub_graph = nx.bfs_tree(  # type: ignore[misc]
-                graph_to_render, package, reverse=RecipeGraph._reverse_flag(direction)  # type: ignore[misc]
-            )
+            # Packages without any relationships are not in the graph.
+            if self.contains_package_name(package) and package not in graph_to_render:
+                sub_graph = nx.DiGraph()  # type: ignore[misc]
+                sub_graph.add_node(package)  # type: ignore[misc]
+            else:
+                sub_graph = nx.bfs_tree(  # type: ignore[misc]
+                    graph_to_render, package, reverse=RecipeGraph._reverse_flag(direction)  # type: ignore[misc]
+                )
             nx.draw(  # type: ignore[misc]
                 sub_graph,  # type: ignore[misc]
                 pos=graphviz_layout(sub_graph, "dot"),  # type: ignore[misc]
diff --git a/conda_recipe_manager/grapher/recipe_graph_from_disk.py b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
index f04dbe5..ab808c4 100644
--- a/conda_recipe_manager/grapher/recipe_graph_from_disk.py
+++ b/conda_recipe_manager/grapher/recipe_graph_from_disk.py
@@ -28,7 +28,7 @@ class RecipeGraphFromDisk(RecipeGraph):
             a debug string and None.
         """
         try:
-            parser = RecipeReaderDeps(file.read_text())
+            parser = RecipeReaderDeps(file.read_text(encoding="utf-8"))
             return (parser.calc_sha256(), parser)
         except Exception:  # pylint: disable=broad-exception-caught
             return (file.as_posix(), None)
-- 
2.43.0


From 2a1ff2236340a0f6160d72af6bd1348115740c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:23 +0000
Subject: [PATCH 35/63] fix: bulk conversion reports all failed recipes, and
 does not round the success rate before comparing it

---
 conda_recipe_manager/commands/convert.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..a9d31a1 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -306,7 +306,13 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        if result.code in {
+            ExitCode.PARSE_EXCEPTION,
+            ExitCode.READ_EXCEPTION,
+            ExitCode.RENDER_EXCEPTION,
+            ExitCode.PRE_PROCESS_EXCEPTION,
+            ExitCode.ILLEGAL_OPERATION,
+        }:
             recipes_with_except.append(project_name)
             exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
@@ -368,4 +374,9 @@ def convert(
         final_output["recipes_with_warnings"] = recipes_with_warnings
 
     print_out(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if percent_recipe_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    # NOTE: The rate is not rounded here, so that a few failures do not go unnoticed.
+    sys.exit(
+        ExitCode.SUCCESS
+        if num_recipe_success / total_recipes >= min_success_rate
+        else ExitCode.MISSED_SUCCESS_THRESHOLD
+    )
-- 
2.43.0


From 03ff25af9497f1310d0493c3e0d753e11a454482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:40 +0000
Subject: [PATCH 36/63] fix: bulk builds work for paths with spaces and special
 characters and any output, and do not round the success rate

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..f514171 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -8,6 +8,7 @@ import json
 import multiprocessing as mp
 import operator
 import re
+import shlex
 import subprocess
 import sys
 import time
@@ -53,8 +54,9 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            shlex.join(cmd),
             encoding="utf-8",
+            errors="replace",
             capture_output=True,
             shell=True,
             check=False,
@@ -210,4 +212,9 @@ def rattler_bulk_build(
         create_debug_file(debug_log, results, error_histogram)
 
     print(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if percent_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    # NOTE: The rate is not rounded here, so that a few failures do not go unnoticed.
+    sys.exit(
+        ExitCode.SUCCESS
+        if total_success / total_recipes >= min_success_rate
+        else ExitCode.MISSED_SUCCESS_THRESHOLD
+    )
-- 
2.43.0


From 26825f943baad02270ef9c029e44f6ee84c50706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:15 +0000
Subject: [PATCH 37/63] fix: conversion of empty sections, single values
 outside of lists and licenses that are not text

---
 .../parser/recipe_parser_convert.py           | 53 ++++++++++++++-----
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..edb89fe 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -9,8 +9,14 @@ from __future__ import annotations
 from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
+from conda_recipe_manager.parser._traverse import traverse
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, Regex
-from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str
+from conda_recipe_manager.parser._utils import (
+    search_any_regex,
+    set_key_conditionally,
+    stack_path_to_str,
+    str_to_stack_path,
+)
 from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT
@@ -39,6 +45,19 @@ class RecipeParserConvert(RecipeParser):
         self._spdx_utils = SpdxUtils()
         self._msg_tbl = MessageTable()
 
+    def _get_v1_value(self, path: str, default: JsonType = None) -> JsonType:
+        """
+        Convenience function that reads a value of the recipe being converted.
+
+        :param path: Path to the value
+        :param default: (Optional) Value to return if the path does not exist
+        :returns: The value at the path. For a key without a value, that is `None`, not the name of the key.
+        """
+        node: Final = traverse(self._v1_recipe._root, str_to_stack_path(path))  # pylint: disable=protected-access
+        if node is not None and node.is_empty_key():
+            return None
+        return self._v1_recipe.get_value(path, default)
+
     ## Patch utility functions ##
 
     def _patch_and_log(self, patch: JsonPatchType) -> bool:
@@ -319,8 +338,10 @@ class RecipeParserConvert(RecipeParser):
         """
         script_env_path: Final[str] = RecipeParser.append_to_path(build_path, "/script_env")
         # The environment list could contain dictionaries if the variables are conditionally included.
+        script_env_value = self._get_v1_value(script_env_path) or []
+        # A single variable is not necessarily in a list.
         script_env_lst: Final[list[str | dict[str, str]]] = cast(
-            list[str | dict[str, str]], self._v1_recipe.get_value(script_env_path, [])
+            list[str | dict[str, str]], script_env_value if isinstance(script_env_value, list) else [script_env_value]
         )
         if not script_env_lst:
             return
@@ -475,12 +496,14 @@ class RecipeParserConvert(RecipeParser):
         :param about_path: Path to the `about` section, where the `license` field is located.
         """
         license_path: Final[str] = RecipeParser.append_to_path(about_path, "/license")
-        old_license: Final[Optional[str]] = cast(Optional[str], self._v1_recipe.get_value(license_path, default=None))
+        old_license: Final[Optional[str]] = cast(Optional[str], self._get_v1_value(license_path))
         if old_license is None:
             self._msg_tbl.add_message(MessageCategory.WARNING, f"No `license` provided in `{about_path}`")
             return
 
-        corrected_license: Final[Optional[str]] = self._spdx_utils.find_closest_license_match(old_license)
+        corrected_license: Final[Optional[str]] = (
+            self._spdx_utils.find_closest_license_match(old_license) if isinstance(old_license, str) else None
+        )
 
         if corrected_license is None:
             self._msg_tbl.add_message(MessageCategory.WARNING, f"Could not patch unrecognized license: `{old_license}`")
@@ -534,7 +557,7 @@ class RecipeParserConvert(RecipeParser):
             # TODO address this at parse-time, adding a new multiline mode
             summary_path = RecipeParser.append_to_path(about_path, "/summary")
             summary = self._v1_recipe.get_value(summary_path, "")
-            if isinstance(summary, list):
+            if isinstance(summary, list) and all(isinstance(line, str) for line in summary):
                 self._patch_and_log(
                     {"op": "replace", "path": summary_path, "value": "\n".join(cast(list[str], summary))}
                 )
@@ -556,14 +579,18 @@ class RecipeParserConvert(RecipeParser):
         }
         # Replace `- pip check` in `commands` with the new flag. If not found, set the flag to `False` (as the
         # flag defaults to `True`). DO NOT ADD THIS FLAG IF THE RECIPE IS NOT A "PYTHON RECIPE".
-        if "python" not in cast(
-            list[str],
-            self._v1_recipe.get_value(RecipeParser.append_to_path(base_path, "/requirements/host"), default=[]),
-        ):
+        host = self._get_v1_value(RecipeParser.append_to_path(base_path, "/requirements/host"))
+        # A single value is not necessarily in a list.
+        if "python" not in (host if isinstance(host, list) else [host]):
             return
 
         commands_path: Final[str] = RecipeParser.append_to_path(test_path, "/commands")
-        commands = cast(list[str], self._v1_recipe.get_value(commands_path, []))
+        commands_value = self._get_v1_value(commands_path)
+        if isinstance(commands_value, str) and commands_value in pip_check_variants:
+            # Use a list, so that the command can be removed from it.
+            commands_value = [commands_value]
+            self._patch_and_log({"op": "replace", "path": commands_path, "value": commands_value})
+        commands: Final[list[JsonType]] = commands_value if isinstance(commands_value, list) else []
         pip_check = False
         for i, command in enumerate(commands):
             # TODO Future: handle selector cases (pip check will be in the `then` section of a dictionary object)
@@ -606,7 +633,7 @@ class RecipeParserConvert(RecipeParser):
             # created in the path being moved.
             test_files_path = RecipeParser.append_to_path(test_path, "/files")
             if self._v1_recipe.contains_value(test_files_path):
-                test_files_value = self._v1_recipe.get_value(test_files_path)
+                test_files_value = self._get_v1_value(test_files_path)
                 # TODO: Fix, replace does not work here, produces `- null`, Issue #20
                 # self._patch_and_log({"op": "replace", "path": test_files_path, "value": None})
                 self._patch_and_log({"op": "remove", "path": test_files_path})
@@ -643,7 +670,9 @@ class RecipeParserConvert(RecipeParser):
 
             # Move `test` to `tests` and encapsulate the pre-existing object into a list
             new_test_path = f"{test_path}s"
-            test_element = cast(dict[str, JsonType], self._v1_recipe.get_value(test_path))
+            test_value = self._get_v1_value(test_path)
+            # There may be nothing in the section.
+            test_element = test_value if isinstance(test_value, dict) else {}
             test_array: list[JsonType] = []
             # There are 3 types of test elements. We break them out of the original object, if they exist.
             # `Python` Test Element
-- 
2.43.0


From eb3cfce8273e588c22bfcd004c78fa0768b2f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:15 +0000
Subject: [PATCH 38/63] fix: false with a selector is converted to false, not
 to true

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index edb89fe..e8ea3ec 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -238,10 +238,10 @@ class RecipeParserConvert(RecipeParser):
                 patch: JsonPatchType = {
                     "op": "replace",
                     "path": selector_path,
-                    "value": "${{ true if " + bool_expression + " }}",
+                    "value": ("${{ true if " if info.node.value else "${{ false if ") + bool_expression + " }}",
                 }
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions.
-                if selector_path.endswith("/build/skip"):
+                if selector_path.endswith("/build/skip") and info.node.value:
                     patch["value"] = bool_expression
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
-- 
2.43.0


From 2b130b78f8b58813f668efb2359a9f30fc1f3d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:15 +0000
Subject: [PATCH 39/63] fix: the conversion can be repeated, and includes
 changes made to the recipe

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index e8ea3ec..388f3b1 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -790,6 +790,10 @@ class RecipeParserConvert(RecipeParser):
         # Approach: In the event that we want to expand support later, this function should be implemented in terms
         # of a `RecipeParser` tree. This will make it easier to build an upgrade-path, if we so choose to pursue one.
 
+        # The conversion works on its own copy, so that it can be repeated and includes all changes made to the recipe.
+        self._v1_recipe = RecipeParser(self.render())
+        self._msg_tbl = MessageTable()
+
         # Log the original comments
         old_comments: Final[dict[str, str]] = self._v1_recipe.get_comments_table()
 
-- 
2.43.0


From 72de466c79081254ab4128e5c203cb54f0af06c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:09 +0000
Subject: [PATCH 40/63] fix: all selectors of a repeated skip are converted,
 other repeated keys are left alone

---
 .../parser/recipe_parser_convert.py           | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 388f3b1..cdf37e8 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+from collections import Counter
 from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
@@ -198,6 +199,16 @@ class RecipeParserConvert(RecipeParser):
         conda docs for common selectors:
           https://docs.conda.io/projects/conda-build/en/latest/resources/define-metadata.html#preprocessing-selectors
         """
+        # A key can occur several times with different selectors. This counts the occurrences by path.
+        occurrences: Final[Counter[str]] = Counter(
+            stack_path_to_str(info.path.copy())
+            for instances in self._v1_recipe._selector_tbl.values()  # pylint: disable=protected-access
+            for info in instances
+            if info.node.is_leaf()
+        )
+        # Expressions of all occurrences of `skip`, by path.
+        skip_expressions: Final[dict[str, list[str]]] = {}
+
         for selector, instances in self._v1_recipe._selector_tbl.items():  # pylint: disable=protected-access
             for info in instances:
                 # Selectors can be applied to the parent node if they appear on the same line. We'll ignore these when
@@ -241,9 +252,16 @@ class RecipeParserConvert(RecipeParser):
                     "value": ("${{ true if " if info.node.value else "${{ false if ") + bool_expression + " }}",
                 }
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions.
-                if selector_path.endswith("/build/skip") and info.node.value:
-                    patch["value"] = bool_expression
-                if not isinstance(info.node.value, bool):
+                is_skip = selector_path.endswith("/build/skip") and info.node.value is True
+                if is_skip:
+                    expressions = skip_expressions.setdefault(selector_path, [])
+                    if expressions:
+                        # The previous occurrence comes first and is merged into this one.
+                        self._patch_and_log({"op": "remove", "path": selector_path})
+                    expressions.append(bool_expression)
+                    patch["value"] = cast(JsonType, expressions) if len(expressions) > 1 else bool_expression
+                is_repeated = occurrences[selector_path] > 1 and not is_skip
+                if not isinstance(info.node.value, bool) or is_repeated:
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
                     if not info.node.list_member_flag:
                         self._msg_tbl.add_message(
-- 
2.43.0


From 0b39849293d0a6cc3695b9a59d2a4c96e030832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 41/63] fix: substitutions may contain any character, like / or
 * or @

---
 conda_recipe_manager/parser/_types.py                | 4 ++--
 conda_recipe_manager/parser/recipe_parser_convert.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index d095b4a..1ff899d 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -163,7 +163,7 @@ class Regex:
     SELECTOR_PYTHON_VERSION_PY3K_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"py3k")
 
     ## Jinja regular expressions ##
-    JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
+    JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{(?:(?!}}).)*}}")
     # Statements that are on a line with something else do not consume the line.
     JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(
         r"^[ \t]*({%.*%}|{#.*#})[ \t]*\r?\n|({%.*%}|{#.*#})(?=[ \t]*\r?\n)", re.MULTILINE
@@ -175,7 +175,7 @@ class Regex:
     # newer syntax when multiple replacements are possible.
     JINJA_REPLACE_V0_STARTING_MARKER: Final[re.Pattern[str]] = re.compile(r"(?<!\$)\{\{")
 
-    JINJA_V1_SUB: Final[re.Pattern[str]] = re.compile(r"\${{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
+    JINJA_V1_SUB: Final[re.Pattern[str]] = re.compile(r"\${{(?:(?!}}).)*}}")
 
     # All recognized JINJA functions are kept in a set for the convenience of trying to match against all of them.
     # Group 1 contains the function or variable name, Group 2 contains the arguments, if any.
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index cdf37e8..3346e9c 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -177,7 +177,7 @@ class RecipeParserConvert(RecipeParser):
         # Swap all JINJA to use the new `${{ }}` format. A `set` is used as `str.replace()` will replace all instances
         # and a value containing multiple variables could be visited multiple times, causing multiple `${{}}`
         # encapsulations.
-        jinja_sub_locations: Final[set[str]] = set(self._v1_recipe.search(Regex.JINJA_V0_SUB))
+        jinja_sub_locations: Final[set[str]] = set(self._v1_recipe.search(Regex.JINJA_REPLACE_V0_STARTING_MARKER))
         for path in jinja_sub_locations:
             value = self._v1_recipe.get_value(path)
             # Values that match the regex should only be strings. This prevents crashes that should not occur.
-- 
2.43.0


From 95fa217ac4ff462924d20c80eba5c1b43d0ee78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 42/63] fix: variables set to expressions are not turned into
 strings

---
 conda_recipe_manager/parser/_types.py         |  6 +++
 .../parser/recipe_parser_convert.py           | 12 +++---
 conda_recipe_manager/parser/recipe_reader.py  | 42 +++++++++++++++----
 3 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 1ff899d..b8f87e9 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -107,6 +107,12 @@ class CanonicalSortOrder:
 # sense to dedicate a file for.
 
 
+class JinjaExpression(str):
+    """
+    Marks the value of a variable that is set to an expression (like `name | lower`) as opposed to a literal string.
+    """
+
+
 class ForceIndentDumper(yaml.Dumper):
     """
     Custom YAML dumper used to include optional indentation for human readability.
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 3346e9c..a9df8f3 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -11,9 +11,8 @@ from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
 from conda_recipe_manager.parser._traverse import traverse
-from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, Regex
+from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, JinjaExpression, Regex
 from conda_recipe_manager.parser._utils import (
-    search_any_regex,
     set_key_conditionally,
     stack_path_to_str,
     str_to_stack_path,
@@ -151,9 +150,12 @@ class RecipeParserConvert(RecipeParser):
             if not isinstance(value, (str, int, float, bool)):
                 self._msg_tbl.add_message(MessageCategory.WARNING, f"The variable `{name}` is an unsupported type.")
                 continue
-            # Function calls need to preserve JINJA escaping or else they turn into unevaluated strings.
-            if isinstance(value, str) and search_any_regex(Regex.JINJA_FUNCTIONS_SET, value):
-                value = "{{" + value + "}}"
+            # Expressions need to preserve JINJA escaping or else they turn into unevaluated strings.
+            if isinstance(value, JinjaExpression):
+                if any(pattern.search(value) for pattern in Regex.V0_UNSUPPORTED_JINJA):
+                    value = f'"{value}"'
+                else:
+                    value = "{{" + value + "}}"
             context_obj[name] = value
         # Ensure that we do not include an empty context object (which is forbidden by the schema).
         if context_obj:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index ad1f062..8cf5bd2 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -22,6 +22,7 @@ from conda_recipe_manager.parser._traverse import traverse, traverse_all
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
+    JinjaExpression,
     Regex,
     StrStack,
 )
@@ -330,12 +331,14 @@ class RecipeReader(IsModifiable):
             return s[1:-1]
         return s
 
-    def _eval_jinja_expression(self, expression: str) -> Optional[str]:
+    def _eval_jinja_expression(self, expression: str, parents: tuple[str, ...] = ()) -> Optional[str]:
         """
         Evaluates the statement found inside the braces of a JINJA substitution. An expression is only evaluated if all
         of it is supported.
 
         :param expression: Expression to evaluate
+        :param parents: (Optional) Names of the variables that are set to this expression, if it is not found inside of
+            braces.
         :returns: The text to replace the substitution with. If the expression can't be resolved, `None` is returned.
         """
         # TODO add support for REPLACE
@@ -348,9 +351,21 @@ class RecipeReader(IsModifiable):
         idx_match = Regex.JINJA_FUNCTION_IDX_ACCESS.fullmatch(term)
         key: Final[str] = term if idx_match is None else cast(str, idx_match.group(1))
 
+        def _eval_variable(var: str) -> JsonType:
+            value = self._vars_tbl[var]
+            # Variables may be set to expressions, that use other variables.
+            if isinstance(value, JinjaExpression):
+                return None if var in parents else self._eval_jinja_expression(value, (*parents, var))
+            return value
+
         if key in self._vars_tbl:
+            variable: Final = _eval_variable(key)
+            if variable is None and isinstance(self._vars_tbl[key], JinjaExpression):
+                return None
             # Replace value as a string. The caller will re-interpret the entire value.
-            value = str(self._vars_tbl[key])
+            value = str(variable)
+            if (idx_match or filters) and isinstance(self._vars_tbl[key], JinjaExpression):
+                value = value.strip('"')
             if idx_match:
                 idx = int(cast(str, idx_match.group(2)))
                 # From our research, it looks like string indexing on JINJA variables is almost exclusively used
@@ -366,7 +381,18 @@ class RecipeReader(IsModifiable):
         # Example: {{ build_number + 100 }}
         # Example: {{ version + ".1" }}
         if not filters and Regex.JINJA_FUNCTION_ADD_CONCAT.fullmatch(term):
-            total, *rest = [self._eval_jinja_token(token.strip()) for token in term.split("+")]
+            tokens: Final = [token.strip() for token in term.split("+")]
+            terms: list[JsonType] = []
+            for token in tokens:
+                if isinstance(self._vars_tbl.get(token), JinjaExpression):
+                    term_value = _eval_variable(token)
+                    if term_value is None:
+                        return None
+                    # Strings are quoted, the other terms are variables or numbers.
+                    terms.append(self._eval_jinja_token(cast(str, term_value)))
+                else:
+                    terms.append(self._eval_jinja_token(token))
+            total, *rest = terms
             for token in rest:
                 # Perform arithmetic addition, IFF both sides are numeric types. Otherwise, concat two strings.
                 if isinstance(total, (int, float)) and isinstance(token, (int, float)):
@@ -463,7 +489,9 @@ class RecipeReader(IsModifiable):
                     try:
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
-                        self._vars_tbl[key] = value
+                        # Strings that lack quotes, like hashes and versions, are not expressions.
+                        is_string = re.fullmatch(r"\d[\w.]*", value) is not None
+                        self._vars_tbl[key] = value if is_string else JinjaExpression(value)
             case SchemaVersion.V1:
                 # NOTE: Reading the section as an object preserves the types of the variables.
                 context: Final[JsonType] = cast(dict[str, JsonType], self.render_to_object()).get("context", None)
@@ -841,9 +869,9 @@ class RecipeReader(IsModifiable):
         # `/context`.
         if self._schema_version == SchemaVersion.V0:
             for key, val in self._vars_tbl.items():
-                # Double quote strings
-                if isinstance(val, str):
-                    val = val.replace("\\", "\\\\").replace("\n", "\\n")
+                # Double quote strings, but not expressions
+                if isinstance(val, str) and not isinstance(val, JinjaExpression):
+                    val = val.replace("\\", "\\\\").replace("\n", "\\n").replace('"', '\\"')
                     val = f'"{val}"'
                 lines.append(f"{{% set {key} = {val} %}}")
             # Add spacing if variables have been set
-- 
2.43.0


From faa360538780f1567bce184bb418e3fe7650e3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:53 +0000
Subject: [PATCH 43/63] fix: bumping to a new version resets the build number,
 even with --build-num

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From f4e901d7218d9b0616a9b322ab024b453be031cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:45 +0000
Subject: [PATCH 44/63] fix: relative imports are not reported as dependencies
 of the project

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..ffba6d9 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -107,11 +107,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports always refer to the project itself.
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 2a438c5616e4d1175ffbc3c1b3dbe8872444c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 45/63] fix: Python files in other encodings, or with a byte
 order mark, can be scanned

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index ffba6d9..7cf2486 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,8 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        # Reading the raw bytes leaves it to Python to find out about the encoding of the source code.
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
-- 
2.43.0


From e6f07d550066ddb09acefa6712523109161dc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 46/63] fix: a pyproject.toml file that is not UTF-8 is
 reported, like others that do not parse

---
 .../scanner/dependency/pyproject_dep_scanner.py               | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..d840162 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,10 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (FileNotFoundError, UnicodeDecodeError, tomllib.TOMLDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            if isinstance(e, (UnicodeDecodeError, tomllib.TOMLDecodeError)):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
-- 
2.43.0


From 17594d2e9e4bafdc443df778e2b931905a51d8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:27 +0000
Subject: [PATCH 47/63] fix: several environment variables on a line are
 converted separately

---
 conda_recipe_manager/parser/_types.py              |  2 +-
 .../parser/recipe_parser_convert.py                | 14 +-------------
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index b8f87e9..f614595 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -137,7 +137,7 @@ class Regex:
     ## Pre-process conversion tooling regular expressions ##
     # Finds `environ[]` used by a some recipe files. Requires a whitespace character to prevent matches with
     # `os.environ[]`, which is very rare.
-    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"\s+environ\[(\"|')(.*)(\"|')\]")
+    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(\s)environ\[(\"[^\"\n]*\"|'[^'\n]*')\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index a9df8f3..ea1bb00 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -776,19 +776,7 @@ class RecipeParserConvert(RecipeParser):
         # NOTE:
         #   - This is mostly used by Bioconda recipes and R-based-packages in the `license_file` field.
         #   - From our search, it looks like we never deal with more than one set of outer quotes within the brackets
-        replacements: list[tuple[str, str]] = []
-        for groups in cast(list[str], Regex.PRE_PROCESS_ENVIRON.findall(content)):
-            # Each match should return ["<quote char>", "<key>", "<quote_char>"]
-            quote_char = groups[0]
-            key = groups[1]
-            replacements.append(
-                (
-                    f"environ[{quote_char}{key}{quote_char}]",
-                    f"env.get({quote_char}{key}{quote_char})",
-                )
-            )
-        for old, new in replacements:
-            content = content.replace(old, new, 1)
+        content = Regex.PRE_PROCESS_ENVIRON.sub(r"\1env.get(\2)", content)
 
         # Replace `{{ hash_type }}:` with the value of `hash_type`, which is likely `sha256`. This is an uncommon
         # practice that is not part of the V1 specification. Currently, about 70 AnacondaRecipes and conda-forge files
-- 
2.43.0


From d83b1a1615db2c02c9ac0fe908522f9daa8b8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:00 +0000
Subject: [PATCH 48/63] fix: quoted strings with newlines are converted as YAML
 reads them

---
 conda_recipe_manager/parser/_types.py         |  7 +++--
 .../parser/recipe_parser_convert.py           | 29 +++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index f614595..91b71fc 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -154,8 +154,11 @@ class Regex:
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
         r"(\|\s*(lower|upper))(\(\))"
     )
-    # Attempts to normalize multiline strings containing quoted escaped newlines.
-    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(r"(\s*)(.*):\s*['\"](.*)\\n(.*)['\"]")
+    # Attempts to normalize multiline strings containing quoted escaped newlines. Escape sequences only have a meaning in
+    # double quotes. The groups are the indentation (including list marks), the key, the string, and the comment.
+    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(
+        r"^([ ]*(?:-[ ]+)*)([^\s:#\"'-][^:#\"'\n]*):[ ]+(\"(?:[^\"\\\n]|\\.)*\")([ ]+#.*)?[ ]*$", re.MULTILINE
+    )
     # rattler-build@0.18.0 deprecates `min_pin` and `max_pin`
     PRE_PROCESS_MIN_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"min_pin=")
     PRE_PROCESS_MAX_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"max_pin=")
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index ea1bb00..590dd73 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -6,9 +6,12 @@
 
 from __future__ import annotations
 
+import re
 from collections import Counter
 from typing import Final, Optional, cast
 
+import yaml
+
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
 from conda_recipe_manager.parser._traverse import traverse
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, JinjaExpression, Regex
@@ -740,6 +743,27 @@ class RecipeParserConvert(RecipeParser):
                 output_path, CanonicalSortOrder.TOP_LEVEL_KEY_SORT_ORDER
             )
 
+    @staticmethod
+    def _pre_process_quoted_multiline_string(match: re.Match[str]) -> str:
+        """
+        Helper function for `pre_process_recipe_text()` that writes a quoted string, with escaped newlines, over several
+        lines.
+
+        :param match: Match of `PRE_PROCESS_QUOTED_MULTILINE_STRINGS`
+        :returns: Text to replace the match with. The text is not changed if the string has no newlines or can't be
+            written without quotes.
+        """
+        try:
+            lines = cast(str, yaml.load(match.group(3), Loader=yaml.SafeLoader)).removesuffix("\n").split("\n")
+        except yaml.YAMLError:
+            return match.group()
+        # Leading and trailing white space is not kept
+        if len(lines) < 2 or not lines[0] or not lines[-1] or any(not s.isprintable() or s != s.strip() for s in lines):
+            return match.group()
+        indent: Final[str] = " " * (len(match.group(1)) + 2)
+        block: Final[list[str]] = [f"{indent}{line}".rstrip() for line in lines]
+        return "\n".join([f"{match.group(1)}{match.group(2)}: |{match.group(4) or ''}", *block])
+
     @staticmethod
     def pre_process_recipe_text(content: str) -> str:
         """
@@ -764,8 +788,9 @@ class RecipeParserConvert(RecipeParser):
         # Strip any problematic parenthesis that may be left over from the previous operations.
         content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS.sub(r"\1", content)
         # Attempt to normalize quoted multiline strings into the common `|` syntax.
-        # TODO: Handle multiple escaped newlines (very uncommon)
-        content = Regex.PRE_PROCESS_QUOTED_MULTILINE_STRINGS.sub(r"\1\2: |\1  \3\1  \4", content)
+        content = Regex.PRE_PROCESS_QUOTED_MULTILINE_STRINGS.sub(
+            RecipeParserConvert._pre_process_quoted_multiline_string, content
+        )
 
         # rattler-build@0.18.0: Introduced checks for deprecated `max_pin` and `min_pin` fields. This replacement
         # addresses the change in numerous JINJA functions that use this nomenclature.
-- 
2.43.0


From ecbc54f1f9953717d7b67e52430b4d295aa17d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:26 +0000
Subject: [PATCH 49/63] fix: keys of a variable type of hash keep that type,
 and other uses of the variable work

---
 conda_recipe_manager/parser/recipe_parser.py | 27 ++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 3c04b4c..07fce16 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -80,14 +80,25 @@ class RecipeParser(RecipeReader):
         :param content: Recipe file contents to pre-process
         :returns: Pre-processed recipe file contents, devoid of `hash_type` key/variable usage.
         """
-        hash_type_var_variants: Final[set[str]] = {
-            '{% set hash_type = "sha256" %}\n',
-            '{% set hashtype = "sha256" %}\n',
-            '{% set hash = "sha256" %}\n',  # NOTE: `hash` is also commonly used for the actual SHA-256 hash value
-        }
-        for hash_type_variant in hash_type_var_variants:
-            content = content.replace(hash_type_variant, "")
-        return Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub("sha256:", content)
+        # NOTE: `hash` is also commonly used for the actual SHA-256 hash value
+        hash_type_vars: Final[list[str]] = ["hash_type", "hashtype", "hash"]
+
+        # The recipe may use another type of hash.
+        hash_types: Final[dict[str, str]] = {}
+        for var in hash_type_vars:
+            hash_type = re.search(r"\{%-?\s*set\s+" + var + r"\s*=\s*[\"'](md5|sha1|sha256)[\"']\s*-?%\}", content)
+            if hash_type is not None:
+                hash_types[var] = hash_type.group(1)
+        content = Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub(
+            lambda match: f"{hash_types.get(match.group(1), 'sha256')}:", content
+        )
+
+        for var in hash_type_vars:
+            removed = content.replace(f'{{% set {var} = "sha256" %}}\n', "")
+            # The variable may be used elsewhere.
+            if not re.search(r"\{[{%][^}]*\b" + var + r"\b", removed):
+                content = removed
+        return content
 
     ## JINJA Variable Editing Functions ##
 
-- 
2.43.0


From d614583881c8097edce4a587a688fdc7d02d4538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:58 +0000
Subject: [PATCH 50/63] fix: chained dot functions are all converted, but not
 text in quotes nor functions without an equivalent

---
 conda_recipe_manager/parser/_types.py         | 22 +++++++++-----
 .../parser/recipe_parser_convert.py           | 30 +++++++++++++++++--
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 91b71fc..cc197dc 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -123,6 +123,12 @@ class ForceIndentDumper(yaml.Dumper):
         return super().increase_indent(flow, False)
 
 
+# Arguments of a JINJA function call, with up to one more level of parenthesis. Used by regular expressions below.
+_JINJA_ARGUMENTS: Final[str] = (
+    r"\((?:\"[^\"\n]*\"|'[^'\n]*'|[^()\"'\n]|\((?:\"[^\"\n]*\"|'[^'\n]*'|[^()\"'\n])*\))*\)"
+)
+
+
 class Regex:
     """
     Namespace used to organize all regular expressions used by the `parser` module.
@@ -142,14 +148,16 @@ class Regex:
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
     )
-    # Finds set statements that use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
-    # Group 1 and Group 2 match the left and right sides of the period mark.
-    PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT: Final[re.Pattern[str]] = re.compile(
-        r"(\{%\s*set.*=.*)\.(.*\(.*\)\s*%\})"
-    )
-    PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
-        r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
+    # Finds statements that may use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
+    PRE_PROCESS_JINJA_STATEMENT: Final[re.Pattern[str]] = re.compile(r"\{%\s*set\s[^\n]*?%\}|\{\{[^\n]*?\}\}")
+    # Matches all the dot functions called in a row, or strings, which are skipped. Group 1 matches what is in front of the
+    # calls and Group 2 all of the calls. Calls are followed by neither an index nor an attribute.
+    PRE_PROCESS_JINJA_DOT_FUNCTIONS: Final[re.Pattern[str]] = re.compile(
+        rf"(\"[^\"\n]*\"|'[^'\n]*'|(?<!\w)\w*)((?:\.\w+{_JINJA_ARGUMENTS})++)(?!\s*[\[.])"
+        r"|\"[^\"\n]*\"|'[^'\n]*'"
     )
+    # Matches one call. Group 1 is the name of the function, Group 2 its arguments.
+    PRE_PROCESS_JINJA_DOT_FUNCTION: Final[re.Pattern[str]] = re.compile(rf"\.(\w+)({_JINJA_ARGUMENTS})")
     # Strips empty parenthesis artifacts on functions like `| lower`
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
         r"(\|\s*(lower|upper))(\(\))"
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 590dd73..e0b616f 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -743,6 +743,28 @@ class RecipeParserConvert(RecipeParser):
                 output_path, CanonicalSortOrder.TOP_LEVEL_KEY_SORT_ORDER
             )
 
+    @staticmethod
+    def _pre_process_dot_functions(match: re.Match[str]) -> str:
+        """
+        Helper function for `pre_process_recipe_text()` that replaces dot functions with their piped equivalents.
+
+        :param match: Match of `PRE_PROCESS_JINJA_DOT_FUNCTIONS`
+        :returns: Text to replace the match with.
+        """
+        if not match.group(2):
+            return match.group()
+        calls: Final = list(Regex.PRE_PROCESS_JINJA_DOT_FUNCTION.finditer(match.group(2)))
+        # These are not filters, or filters that do something else. They can't be called after a filter.
+        kept = 1 if match.group(1) in {"env", "environ"} else 0
+        for i, call in enumerate(calls, start=1):
+            if call.group(1) in {"count", "format", "join"}:
+                kept = i
+        return (
+            match.group(1)
+            + "".join(call.group() for call in calls[:kept])
+            + "".join(f" | {call.group(1)}{call.group(2)}" for call in calls[kept:])
+        )
+
     @staticmethod
     def _pre_process_quoted_multiline_string(match: re.Match[str]) -> str:
         """
@@ -783,8 +805,12 @@ class RecipeParserConvert(RecipeParser):
         # Some recipes use `foo.<function()>` instead of `{{ foo | <function()> }}` in JINJA statements. This causes
         # rattler-build to fail with `invalid operation: object has no method named <function()>`
         # NOTE: This is currently done BEFORE converting to use `env.get()` to wipe-out those changes.
-        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT.sub(r"\1 | \2", content)
-        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION.sub(r"\1 | \2", content)
+        content = Regex.PRE_PROCESS_JINJA_STATEMENT.sub(
+            lambda statement: Regex.PRE_PROCESS_JINJA_DOT_FUNCTIONS.sub(
+                RecipeParserConvert._pre_process_dot_functions, statement.group()
+            ),
+            content,
+        )
         # Strip any problematic parenthesis that may be left over from the previous operations.
         content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS.sub(r"\1", content)
         # Attempt to normalize quoted multiline strings into the common `|` syntax.
-- 
2.43.0


From a357418a628542f676ea432e3499d99089d3fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 51/63] fix: unpickling the sentinel never makes a second one

---
 conda_recipe_manager/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conda_recipe_manager/types.py b/conda_recipe_manager/types.py
index e7e2367..9a7501d 100644
--- a/conda_recipe_manager/types.py
+++ b/conda_recipe_manager/types.py
@@ -59,6 +59,14 @@ class SentinelType:
             _schema_type_singleton = super().__new__(cls)
             return _schema_type_singleton
 
+    def __reduce__(self) -> tuple[type[SentinelType], tuple[()]]:
+        """
+        Constructs the global singleton on unpickling. The oldest pickling protocols do not call `__new__()` otherwise.
+
+        :returns: How to construct this object
+        """
+        return (SentinelType, ())
+
 
 class MessageCategory(StrEnum):
     """
-- 
2.43.0


From 86cb2f844eff231f2ea9d338fcc6c47f97ea27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 52/63] fix: callers of get_messages() do not get the table's
 own list

---
 conda_recipe_manager/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/types.py b/conda_recipe_manager/types.py
index 9a7501d..279fcd9 100644
--- a/conda_recipe_manager/types.py
+++ b/conda_recipe_manager/types.py
@@ -111,7 +111,7 @@ class MessageTable:
         """
         if category not in self._tbl:
             return []
-        return self._tbl[category]
+        return self._tbl[category].copy()
 
     def get_message_count(self, category: MessageCategory) -> int:
         """
-- 
2.43.0


From 67f3e50065e7cc68b50af4568391346781c301a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 53/63] fix: recipes do not share lists of variables and
 patches with callers

---
 conda_recipe_manager/parser/recipe_parser.py | 5 +++--
 conda_recipe_manager/parser/recipe_reader.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 07fce16..cd7bca2 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -116,7 +116,7 @@ class RecipeParser(RecipeReader):
             else:
                 self.patch({"op": "add", "path": "/context", "value": {var: value}})
             return
-        self._vars_tbl[var] = value
+        self._vars_tbl[var] = copy.deepcopy(value)
         self._is_modified = True
 
     def del_variable(self, var: str) -> None:
@@ -593,7 +593,8 @@ class RecipeParser(RecipeReader):
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
         # (without incurring even more conversions between path types).
-        is_successful = self._call_patch_op(op, path, patch)
+        # The value is copied, so that later changes to the patch do not reach the recipe.
+        is_successful = self._call_patch_op(op, path, copy.deepcopy(patch))
 
         # Update the selector table and modified flag, if the operation succeeded.
         if is_successful and op != "test":
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8cf5bd2..f431fbc 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1245,7 +1245,8 @@ class RecipeReader(IsModifiable):
             if default == RecipeReader._sentinel or isinstance(default, SentinelType):
                 raise KeyError
             return default
-        return self._vars_tbl[var]
+        # Lists are copied so that the caller doesn't accidentally modify a private member variable.
+        return copy.deepcopy(self._vars_tbl[var])
 
     def get_variable_references(self, var: str) -> list[str]:
         """
-- 
2.43.0


From 073b4c5b8beecafc68dff96cad87e8ba9611b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 54/63] fix: an empty outputs section has no package paths

---
 conda_recipe_manager/parser/recipe_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f431fbc..21318e3 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1144,9 +1144,11 @@ class RecipeReader(IsModifiable):
         """
         paths: list[str] = ["/"]
 
-        outputs: Final[list[str]] = cast(list[str], self.get_value("/outputs", []))
-        for i in range(len(outputs)):
-            paths.append(f"/outputs/{i}")
+        outputs: Final[JsonType] = self.get_value("/outputs", [])
+        # An empty section has no outputs
+        if isinstance(outputs, list):
+            for i in range(len(outputs)):
+                paths.append(f"/outputs/{i}")
 
         return paths
 
-- 
2.43.0


From fd014aa9d4e2d0e04c4ea560a04cbb262ca399e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 55/63] fix: elements of lists that lost all of their keys are
 null when read and found

---
 conda_recipe_manager/parser/_node.py         | 9 +++++++++
 conda_recipe_manager/parser/recipe_reader.py | 6 +++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index cf6d08a..d2cda66 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -146,6 +146,15 @@ class Node:
         """
         return self.key_flag and self.is_leaf()
 
+    def is_null(self) -> bool:
+        """
+        Indicates if a leaf implies a null value, without having one. That is an empty key, or an element of a list that
+        lost all of its keys.
+
+        :returns: True if the node implies a null value. False otherwise.
+        """
+        return self.is_empty_key() or (self.list_member_flag and self.value == Node._sentinel and self.is_leaf())
+
     def is_single_key(self) -> bool:
         """
         Indicates if a node contains a single child node and is a key.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 21318e3..7e204e2 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1045,7 +1045,7 @@ class RecipeReader(IsModifiable):
                 )
                 text = cast(str, yaml.load(multiline_str, Loader=SafeLoader))
                 return self._sub_jinja_vars(text) if sub_vars else text
-            return_value = cast(Primitives, node.children[0].value)
+            return_value = None if node.children[0].is_null() else cast(Primitives, node.children[0].value)
             # The value was interpreted when it was read. Interpreting a string again may turn it into something else.
             return_value = self._sub_vars_in_value(return_value, sub_vars)
             return [return_value] if node.children[0].list_member_flag else return_value
@@ -1090,9 +1090,9 @@ class RecipeReader(IsModifiable):
 
         def _find_value_paths(node: Node, path_stack: StrStack) -> None:
             # Special cases:
-            #   - Empty keys imply a null value, although they don't contain a null child.
+            #   - Empty keys and elements imply a null value, although they don't contain a null child.
             #   - Types are checked so bools aren't simplified to "truthiness" evaluations.
-            if (value is None and node.is_empty_key()) or (
+            if (value is None and node.is_null()) or (
                 node.is_leaf()
                 and not node.is_empty_key()
                 and type(node.value) == type(value)  # pylint: disable=unidiomatic-typecheck
-- 
2.43.0


From 02e87a3e349690ed0b87a9b72001e5535806dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 56/63] fix: searches see text as it is written, and no keys
 without values

---
 conda_recipe_manager/parser/recipe_reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 7e204e2..db355da 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -995,7 +995,8 @@ class RecipeReader(IsModifiable):
         lst: list[str] = []
 
         def _find_paths(node: Node, path_stack: StrStack) -> None:
-            if node.is_leaf():
+            # The root of an empty recipe is not a value
+            if node.is_leaf() and node is not self._root:
                 lst.append(stack_path_to_str(path_stack))
 
         traverse_all(self._root, _find_paths)
@@ -1421,10 +1422,16 @@ class RecipeReader(IsModifiable):
         paths: list[str] = []
 
         def _search_paths(node: Node, path_stack: StrStack) -> None:
-            value = str(stringify_yaml(node.value))
+            if node.is_null():
+                # Keys are not searched.
+                value = str(stringify_yaml(None))
+            elif isinstance(node.value, list):
+                value = "\n".join(map(str, node.value))
+            else:
+                value = str(stringify_yaml(node.value))
             if include_comment and node.comment:
                 value = f"{value}{TAB_AS_SPACES}{node.comment}"
-            if node.is_leaf() and re_obj.search(value):
+            if node.is_leaf() and node is not self._root and re_obj.search(value):
                 paths.append(stack_path_to_str(path_stack))
 
         traverse_all(self._root, _search_paths)
-- 
2.43.0


From 170fd35376353e4f3282d5463adbcbe15225a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:28 +0000
Subject: [PATCH 57/63] fix: quoted strings keep characters outside of ASCII

---
 conda_recipe_manager/parser/_utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index bbf46e8..03effe8 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -110,6 +110,18 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
+def _quote_string(s: str) -> str:
+    """
+    Writes a string in quotes. The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to
+    write our YAML. Printable characters are left as they are: JSON escapes some of these in a way that YAML does not
+    understand.
+
+    :param s: String to quote
+    :returns: YAML version of the string, in quotes.
+    """
+    return "".join(c if c.isprintable() else json.dumps(c)[1:-1] for c in json.dumps(s, ensure_ascii=False))
+
+
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
     """
     Ensure string quote escaping if quote marks are present. Otherwise this has the unintended consequence of
@@ -147,8 +159,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
-        # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
-        return json.dumps(s)
+        return _quote_string(s)
     return s
 
 
@@ -207,7 +218,7 @@ def stringify_yaml(
             # Quotes in JINJA statements can't be escaped.
             if Regex.JINJA_V0_SUB.search(val) and '"' in val and "'" not in val:
                 return f"'{val}'"
-            return json.dumps(val)
+            return _quote_string(val)
         return quoted_val
     return val
 
-- 
2.43.0


From 1183974d7f6d8279590324811ad26c6454a723b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:58 +0000
Subject: [PATCH 58/63] fix: collections on one line are written as YAML, not
 as Python

---
 conda_recipe_manager/parser/_utils.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 03effe8..ad87002 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -110,16 +110,16 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
-def _quote_string(s: str) -> str:
+def _quote(val: JsonType) -> str:
     """
-    Writes a string in quotes. The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to
-    write our YAML. Printable characters are left as they are: JSON escapes some of these in a way that YAML does not
-    understand.
+    Writes a string in quotes, or a collection in brackets. The PyYaml equivalent function injects newlines, hence why
+    we abuse the JSON library to write our YAML. Printable characters are left as they are: JSON escapes some of these
+    in a way that YAML does not understand.
 
-    :param s: String to quote
-    :returns: YAML version of the string, in quotes.
+    :param val: Value to quote
+    :returns: YAML version of the value, with strings in quotes.
     """
-    return "".join(c if c.isprintable() else json.dumps(c)[1:-1] for c in json.dumps(s, ensure_ascii=False))
+    return "".join(c if c.isprintable() else json.dumps(c)[1:-1] for c in json.dumps(val, ensure_ascii=False))
 
 
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
@@ -159,7 +159,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
 
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
-        return _quote_string(s)
+        return _quote(s)
     return s
 
 
@@ -218,8 +218,11 @@ def stringify_yaml(
             # Quotes in JINJA statements can't be escaped.
             if Regex.JINJA_V0_SUB.search(val) and '"' in val and "'" not in val:
                 return f"'{val}'"
-            return _quote_string(val)
+            return _quote(val)
         return quoted_val
+    # Collections that are written on one line
+    if isinstance(val, (dict, list)):
+        return _quote(cast(JsonType, val))
     return val
 
 
-- 
2.43.0


From 538700d673c6562159469ab4dfaa182bcdeae4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:36 +0000
Subject: [PATCH 59/63] fix: elements of lists that are dictionaries in
 brackets keep all of their keys

---
 conda_recipe_manager/parser/recipe_reader.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index db355da..62cca20 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -209,16 +209,17 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
-                # Build up the key-and-potentially-value pair nodes first
-                key_children: list[Node] = []
-                key = list(output[0].keys())[0]
-                if output[0][key] is not None:
-                    key_children.append(Node(cast(Primitives, output[0][key]), comment))
-                key_node = Node(key, comment, key_children, key_flag=True)
-
+            # An empty dictionary has no keys, and is a value.
+            if isinstance(output[0], dict) and output[0]:
                 elem_node = Node(comment=comment, list_member_flag=True)
-                elem_node.children.append(key_node)
+                # Build up the key-and-potentially-value pair nodes first. There are several keys if the dictionary is
+                # in brackets. The comment is on the line of the first key.
+                for key, child in output[0].items():
+                    key_children: list[Node] = []
+                    key_comment = "" if elem_node.children else comment
+                    if child is not None:
+                        key_children.append(Node(cast(Primitives, child), key_comment))
+                    elem_node.children.append(Node(key, key_comment, key_children, key_flag=True))
                 return elem_node
             return Node(cast(Primitives, output[0]), comment, list_member_flag=True)
         # Other types are just leaf nodes. This is scenario should likely not be triggered given our recipe files don't
-- 
2.43.0


From 3778c3a338ee8e2dc64bbff6a400694d076a09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:21 +0000
Subject: [PATCH 60/63] fix: patches that move or copy a multiline string keep
 its last newline

---
 conda_recipe_manager/parser/recipe_parser.py | 23 ++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index cd7bca2..7cf9b71 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -431,6 +431,25 @@ class RecipeParser(RecipeReader):
             return None
         return self.get_value(path)
 
+    def _get_patch_source(self, path: str) -> JsonType:
+        """
+        Retrieves the value that a patch operation puts in another place.
+
+        :param path: Path to the value
+        :raises KeyError: If there is no value at this path
+        :returns: The value
+        """
+        value: Final[JsonType] = self._get_patch_value(path)
+        node = traverse(self._root, str_to_stack_path(path))
+        if isinstance(value, str) and value and node is not None and node.is_single_key():
+            # The newline at the end of a multiline string is not read.
+            match node.children[0].multiline_variant:
+                case MultilineVariant.PIPE_PLUS | MultilineVariant.R_ANGLE_PLUS:
+                    return f"{value}\n"
+                case MultilineVariant.PIPE | MultilineVariant.R_ANGLE:
+                    return value.rstrip("\n") + "\n"
+        return value
+
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
         Performs a JSON patch `add` operation.
@@ -445,7 +464,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self._get_patch_value(value_from)
+            original_value = self._get_patch_source(value_from)
         except KeyError:
             return False
 
@@ -478,7 +497,7 @@ class RecipeParser(RecipeReader):
         # So to save on development and maintenance, that is how this op is written.
         original_value: JsonType
         try:
-            original_value = self._get_patch_value(value_from)
+            original_value = self._get_patch_source(value_from)
         except KeyError:
             return False
 
-- 
2.43.0


From 7c87fa590182298a73e13343f9c024004f4381db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:46 +0000
Subject: [PATCH 61/63] fix: the command line program runs as a module (python
 -m)

---
 conda_recipe_manager/commands/conda_recipe_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/conda_recipe_manager.py b/conda_recipe_manager/commands/conda_recipe_manager.py
index 712ceb1..10de91d 100644
--- a/conda_recipe_manager/commands/conda_recipe_manager.py
+++ b/conda_recipe_manager/commands/conda_recipe_manager.py
@@ -43,4 +43,4 @@ conda_recipe_manager.add_command(bump_recipe)
 
 
 if __name__ == "__main__":
-    conda_recipe_manager(False)
+    conda_recipe_manager()  # pylint: disable=no-value-for-parameter
-- 
2.43.0


From 4f4dcab60d086f58c84fd99f48ef898b1671af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:34 +0000
Subject: [PATCH 62/63] fix: keys that need quotes are written with quotes

---
 conda_recipe_manager/parser/recipe_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 62cca20..63d1429 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -751,6 +751,8 @@ class RecipeReader(IsModifiable):
         :param parent: (Optional) Parent node to the current node. Set by recursive calls only.
         """
         spaces = TAB_AS_SPACES * depth
+        # Some keys need quotes, like values do.
+        key: Final = stringify_yaml(node.value)
 
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab. There is no list if rendering started with the dictionary (`depth` is `0` for its keys).
@@ -766,9 +768,9 @@ class RecipeReader(IsModifiable):
             # Edge case: Handle a list containing 1 member
             if node.children[0].list_member_flag:
                 if is_first_collection_child:
-                    lines.append(f"{TAB_AS_SPACES * (depth-1)}- {node.value}:  {node.comment}".rstrip())
+                    lines.append(f"{TAB_AS_SPACES * (depth-1)}- {key}:  {node.comment}".rstrip())
                 else:
-                    lines.append(f"{spaces}{node.value}:  {node.comment}".rstrip())
+                    lines.append(f"{spaces}{key}:  {node.comment}".rstrip())
                 lines.append(
                     f"{spaces}{TAB_AS_SPACES}- "
                     f"{stringify_yaml(node.children[0].value, multiline_variant=node.children[0].multiline_variant)}  "
@@ -783,7 +785,7 @@ class RecipeReader(IsModifiable):
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
                 key_prefix = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
-                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                lines.append(f"{key_prefix}{key}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
@@ -793,14 +795,14 @@ class RecipeReader(IsModifiable):
 
             if is_first_collection_child:
                 lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
+                    f"{TAB_AS_SPACES * (depth-1)}- {key}: "
                     f"{stringify_yaml(node.children[0].value)}  "
                     f"{node.children[0].comment}".rstrip()
                 )
                 return
 
             lines.append(
-                f"{spaces}{node.value}: "
+                f"{spaces}{key}: "
                 f"{stringify_yaml(node.children[0].value)}  "
                 f"{node.children[0].comment}".rstrip()
             )
@@ -825,7 +827,7 @@ class RecipeReader(IsModifiable):
                 list_prefix = "- "
                 tmp_spaces = tmp_spaces[TAB_SPACE_COUNT:]
             # Nodes representing collections in a list have nothing to render
-            lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
+            lines.append(f"{tmp_spaces}{list_prefix}{key}:  {node.comment}".rstrip())
 
         is_list_mark_found = False
         for child in node.children:
-- 
2.43.0


From 2fe3a41760dfb738b0ac3d63f214e343c6172296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:12 +0000
Subject: [PATCH 63/63] fix: texts of several lines that are no blocks are
 written on one line

---
 conda_recipe_manager/parser/recipe_reader.py | 24 +++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 63d1429..afababc 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -226,6 +226,28 @@ class RecipeReader(IsModifiable):
         # have single valid lines of YAML, but we cover this case for the sake of correctness.
         return Node(output, comment)
 
+    @staticmethod
+    def _is_block_text(value: str) -> bool:
+        """
+        Indicates if a string can be written as a block of several lines. Blocks do not keep whitespace at the start of
+        the first line or at the end of any line, or empty lines at the end. Such strings are written on a single line.
+
+        :param value: String to check
+        :returns: True if the string consists of several lines that can be written as a block. False otherwise.
+        """
+        if "\n" not in value:
+            return False
+        # JINJA statements are not quoted, so that they can't be written on a single line.
+        if "{{" in value or "{%" in value:
+            return True
+        lines: Final[list[str]] = value.removesuffix("\n").split("\n")
+        return (
+            bool(lines[-1])
+            and lines == value.splitlines()
+            and all(line == line.rstrip() for line in lines)
+            and not next(line for line in lines if line)[0].isspace()
+        )
+
     @staticmethod
     def _generate_subtree(value: JsonType) -> list[Node]:
         """
@@ -233,7 +255,7 @@ class RecipeReader(IsModifiable):
         creates a new subtree that can be used to patch other parse trees.
         """
         # Multiline values can replace the list of children with a single multiline leaf node.
-        if isinstance(value, str) and "\n" in value:
+        if isinstance(value, str) and RecipeReader._is_block_text(value):
             return [
                 Node(
                     value=value.splitlines(),
-- 
2.43.0

