From f7f94894bb5a3cb73194303b0b1bcd456a3ef9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:37 +0000
Subject: [PATCH 01/85] fix: escape every backslash of a comment in the C++
 docstrings

---
 src/codemanip/code_utils.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index cbbcc5e..7319401 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -390,34 +390,20 @@ def format_python_comment(comment: str, indent_size: int) -> str:
 
 
 def escape_backslash_in_comments(comment: str) -> str:
-    if len(comment) <= 1:
-        return comment
-    r = ""
-
-    for c1, c2 in overlapping_pairs(comment):
-        if c1 == "\\" and c2 not in ["n", "t", "o", "x", '"', "'"]:
-            r += "\\\\"
-        else:
-            r += c1
-
-    last_char = comment[-1]
-    if last_char == "\\":
-        r += "\\\\"
-    else:
-        r += last_char
-
-    return r
+    """Escape the backslashes of a comment, so that it can be placed inside a C++ string literal"""
+    return comment.replace("\\", "\\\\")
 
 
 def format_cpp_comment_on_one_line(comment: Optional[str]) -> str:
     if comment is None:
         return ""
     is_multiline = "\n" in comment
-    comment = comment.replace("\n", "\\n")
-    comment = comment.replace('"', '\\"')
-    comment = escape_backslash_in_comments(comment)
     if not is_multiline:
         comment = comment.strip()
+    # Escape the backslashes first: those which are added below shall stay as they are
+    comment = escape_backslash_in_comments(comment)
+    comment = comment.replace("\n", "\\n")
+    comment = comment.replace('"', '\\"')
     return comment
 
 
-- 
2.43.0


From a65aceb66b9570af7e385f710cc5d40cdd068979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 02/85] fix: escape backslashes and triple quotes in the
 docstrings of the stubs

---
 src/litgen/internal/cpp_to_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 5dd88aa..63e954b 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -568,6 +568,8 @@ def docstring_lines(options: LitgenOptions, cpp_element_c: CppElementAndComment)
 
     docstring = cpp_element_c.cpp_element_comments.full_comment()
     docstring = _comment_apply_replacements(options, docstring)
+    # A backslash or a triple quote inside the comment shall not alter (or close) the docstring
+    docstring = docstring.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
     if docstring.startswith('"'):
         docstring = " " + docstring
     if docstring.endswith('"'):
-- 
2.43.0


From 085f2f2318c3c52cd103466120c731023bbde2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 03/85] fix: keep the text of a comment line which starts with
 //

---
 src/srcmlcpp/internal/srcml_comments.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/srcmlcpp/internal/srcml_comments.py b/src/srcmlcpp/internal/srcml_comments.py
index dbed882..a3a6528 100644
--- a/src/srcmlcpp/internal/srcml_comments.py
+++ b/src/srcmlcpp/internal/srcml_comments.py
@@ -312,14 +312,11 @@ def _remove_comment_tokens(comment: str) -> str:
     if comment.startswith("/*") and comment.endswith("*/"):
         return comment[2:-2]
     else:
-        lines = comment.split("\n")
-        lines_processed = []
-        for line in lines:
-            if line.lstrip().startswith("//"):
-                lines_processed.append(line[2:])
-            else:
-                lines_processed.append(line)
-        return "\n".join(lines_processed)
+        # Only the first line still has its token: those of the next lines were removed when grouping the comments
+        # (if a next line starts with "//", this is a part of its text)
+        if comment.startswith("//"):
+            comment = comment[2:]
+        return comment
 
 
 IsCStyleComment = bool
-- 
2.43.0


From e62164f721b1fe5716dcfe66814e7f0df93e00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 04/85] fix: generate bindings for the enums which are not
 arithmetic

---
 .../internal/adapted_types/adapted_enum.py       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index e200d9f..b6b517c 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -248,14 +248,16 @@ class AdaptedEnum(AdaptedElement):
 
         # Enum decl first line
         is_arithmetic = code_utils.does_match_regex_or_matcher(self.options.enum_make_arithmetic__regex, enum_name_cpp)
-        if is_arithmetic:
-            if self.options.bind_library == BindLibraryType.pybind11:
+        is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
+        enum_annotation = ""
+        if self.options.bind_library == BindLibraryType.pybind11:
+            if is_arithmetic:
                 enum_annotation = ", py::arithmetic()"
-            else:
-                enum_annotation = ", nb::is_arithmetic()"
-                is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
-                if is_flag:
-                    enum_annotation += ", nb::is_flag()"
+        else:
+            if is_arithmetic:
+                enum_annotation += ", nb::is_arithmetic()"
+            if is_flag:
+                enum_annotation += ", nb::is_flag()"
         pydef_class_var_parent = cpp_to_python.cpp_scope_to_pybind_parent_var_name(self.options, self.cpp_element())
         enum_var = f"auto pyEnum{enum_name_python} = "
         py = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
-- 
2.43.0


From 13f4709368118850ff96b454822813b60fec94a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 05/85] fix: do not process the text of comments and values as
 code templates

---
 src/codemanip/code_utils.py                   | 45 +++++++++----------
 .../adapted_types/adapted_function.py         | 40 ++++++++---------
 2 files changed, 39 insertions(+), 46 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 7319401..674a721 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -802,11 +802,13 @@ def merge_dicts(dict1: dict[str, Any], dict2: dict[str, Any]) -> dict[str, Any]:
 
 
 def replace_in_string(input_string: str, replacements: dict[str, str]) -> str:
-    r = input_string
-    for search, replace in replacements.items():
-        full_search = "{" + search + "}"
-        r = r.replace(full_search, replace)
-    return r
+    """Replace the tokens, e.g. `{token}`, in one pass (the text of the replacements is not a template)"""
+
+    def replace_token(match: re.Match[str]) -> str:
+        token = match.group(1)
+        return replacements[token] if token in replacements else match.group(0)
+
+    return re.sub(r"\{(\w+)\}", replace_token, input_string)
 
 
 def process_code_template(
@@ -818,11 +820,17 @@ def process_code_template(
     if replacements_with_line_removal_if_not_found is None:
         replacements_with_line_removal_if_not_found = {}
 
-    r = input_string
-    r = replace_in_string(r, replacements)
-    r = replace_in_string_remove_line_if_none(r, replacements_with_line_removal_if_not_found)
+    lines_to_remove = {k: v for k, v in replacements_with_line_removal_if_not_found.items() if v is None}
+    r = replace_in_string_remove_line_if_none(input_string, lines_to_remove)
+
+    # All the tokens are replaced in one pass: the replacements may contain some text which looks like a token
+    all_replacements = {k: v for k, v in replacements_with_line_removal_if_not_found.items() if v is not None}
+    all_replacements.update(replacements)
+    if flag_replace_maybe_comma:
+        all_replacements["maybe_comma"] = ", "
+    r = replace_in_string(r, all_replacements)
+
     if flag_replace_maybe_comma:
-        r = r.replace("{maybe_comma}", ", ")
         if r.endswith(", "):
             r = r[:-2]
         if r.endswith(", );"):
@@ -833,21 +841,10 @@ def process_code_template(
 
 
 def replace_in_string_remove_line_if_none(input_string: str, replacements: dict[str, Optional[str]]) -> str:
-    r = input_string
-
-    for search, replace in replacements.items():
-        if replace is None:
-            lines = r.split("\n")
-            new_lines = []
-            for line in lines:
-                if "{" + search + "}" not in line:
-                    new_lines.append(line)
-            r = "\n".join(new_lines)
-        else:
-            full_search = "{" + search + "}"
-            r = r.replace(full_search, replace)
-
-    return r
+    tokens_to_remove = ["{" + search + "}" for search, replace in replacements.items() if replace is None]
+    lines = input_string.split("\n")
+    lines = [line for line in lines if not any(token in line for token in tokens_to_remove)]
+    return replace_in_string("\n".join(lines), {k: v for k, v in replacements.items() if v is not None})
 
 
 def replace_maybe_comma(code: str, nb_skipped_final_lines: int = 0) -> str:
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 9152b9c..acda53b 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -800,30 +800,26 @@ class AdaptedFunction(AdaptedElement):
         else:
             maybe_docstring = None
 
-        # Apply simple replacements
-        code = template_code
-        code = code_utils.replace_in_string(
-            code,
-            {
-                "_i_": _i_,
-                "py": "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb",
-                "location": location,
-                "arg_types": arg_types,
-            },
-        )
-
-        # Apply replacements with possible line removal
-        code = code_utils.replace_in_string_remove_line_if_none(
-            code,
-            {
-                "maybe_docstring": maybe_docstring,
-                "maybe_pyarg": maybe_pyarg,
-            },
-        )
-
-        # Process maybe_comma
+        # Remove the lines which are not needed, and process maybe_comma
+        # (before inserting the docstring, whose text is not a template)
+        replacements = {
+            "_i_": _i_,
+            "py": "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb",
+            "location": location,
+            "arg_types": arg_types,
+        }
+        lines_replacements = {
+            "maybe_docstring": maybe_docstring,
+            "maybe_pyarg": maybe_pyarg,
+        }
+        lines_to_remove = {token: None for token, value in lines_replacements.items() if value is None}
+        code = code_utils.replace_in_string_remove_line_if_none(template_code, lines_to_remove)
         code = code_utils.replace_maybe_comma(code)
 
+        # Apply replacements
+        replacements.update({token: value for token, value in lines_replacements.items() if value is not None})
+        code = code_utils.replace_in_string(code, replacements)
+
         code = code_utils.add_item_before_cpp_comment(code, ")")
 
         return code
-- 
2.43.0


From c55fbfade6b7992944b9a3cda5c1fd3e5e6cf1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 06/85] fix: limit the consecutive empty lines even if they
 contain spaces

---
 src/codemanip/code_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 674a721..390558b 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -77,14 +77,14 @@ def code_set_max_consecutive_empty_lines(code: str, nb_max_empty: int) -> str:
     if nb_max_empty < 0:
         return code
 
-    lines = code.split("\n")
-    rle: list[tuple[str, int]] = run_length_encode(lines)
-
     new_lines = []
-    for line, nb in rle:
-        if len(line.strip()) == 0 and nb >= nb_max_empty:  # noqa
-            nb = nb_max_empty
-        for _ in range(nb):
+    nb_empty = 0  # number of consecutive empty lines (which may contain different spaces)
+    for line in code.split("\n"):
+        if len(line.strip()) == 0:
+            nb_empty += 1
+        else:
+            nb_empty = 0
+        if nb_empty <= nb_max_empty:
             new_lines.append(line)
     return "\n".join(new_lines)
 
-- 
2.43.0


From 31c5cef3810b346b75e1e0459089f7e2cea1652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 07/85] fix: find the C++ comments after escaped quotes and
 after a quote char

---
 src/codemanip/code_utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 390558b..72f1c7e 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -110,14 +110,18 @@ def strip_first_and_last_lines_if_empty(code_lines: str) -> str:
 
 def line_cpp_comment_position(code_line: str) -> Optional[int]:
     in_string = False
-    last_char = None
-    for i, char in enumerate(code_line):
-        if char == '"' and not last_char == "\\":
+    pos = 0
+    while pos < len(code_line):
+        char = code_line[pos]
+        if in_string and char == "\\":
+            pos += 1  # skip the escaped character
+        elif char == '"':
             in_string = not in_string
-        if char == "/" and last_char == "/" and not in_string:
-            return i - 1
-
-        last_char = char
+        elif not in_string and code_line.startswith("'\"'", pos):
+            pos += 2  # a double quote as a char literal
+        elif not in_string and code_line.startswith("//", pos):
+            return pos
+        pos += 1
 
     return None
 
-- 
2.43.0


From 7900af078bb924e6072e0c0a7ebdd1fe49021358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 08/85] fix: indent_code_lines honours its rstrip parameter

---
 src/codemanip/code_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 72f1c7e..488c554 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -327,7 +327,7 @@ def indent_code_lines(
     rstrip: bool = True,
 ) -> list[str]:
     code = "\n".join(code_lines)
-    r_str = indent_code(code, indent_size, skip_first_line, indent_str)
+    r_str = indent_code(code, indent_size, skip_first_line, indent_str, rstrip)
     r = r_str.split("\n")
     return r
 
-- 
2.43.0


From cb5ecdc5d220897e0d31e8536c0f269b33896dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 09/85] fix: do not lose or duplicate lines around the markers
 of the generated code

---
 src/codemanip/code_utils.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 488c554..d52a218 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -472,24 +472,24 @@ def write_generated_code_between_markers(
                 is_inside_autogen_region = True
                 was_replacement_performed = True
 
-                indent_str = spaces_or_tabs_at_line_start(code_line)
-
                 output_code = output_code + code_line + "\n"
 
                 if flag_preserve_indentation:
-                    code_to_insert = indent_code(code_to_insert, indent_str=indent_str)
-
-                output_code = output_code + code_to_insert
-
-        else:
-            if not is_inside_autogen_region:
+                    indent_str = spaces_or_tabs_at_line_start(code_line)
+                    output_code = output_code + indent_code(code_to_insert, indent_str=indent_str)
+                else:
+                    output_code = output_code + code_to_insert
+
+        elif is_inside_autogen_region:
+            # Skip code lines that were already in the autogenerated region
+            if code_marker_out in code_line:
+                output_code = output_code + "\n"
                 output_code = output_code + code_line + "\n"
-            else:
-                pass  # Skip code lines that were already in the autogenerated region
-        if code_marker_out in code_line:
-            output_code = output_code + "\n"
+                is_inside_autogen_region = False
+        else:
             output_code = output_code + code_line + "\n"
-            is_inside_autogen_region = False
+    if is_inside_autogen_region:
+        raise RuntimeError(f"Missing closing code marker {code_marker_out} in {inout_filename}")
     if output_code[-1:] == "\n":
         output_code = output_code[:-1]
 
-- 
2.43.0


From 2bec5e294d7169649fffbc620a5f08fa4027503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 10/85] fix: write_text_file can create a file

---
 src/codemanip/code_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index d52a218..cea6a7d 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -278,8 +278,7 @@ def escape_new_lines(code: str) -> str:
 
 
 def write_text_file(filename: str, content: str) -> None:
-    old_content = read_text_file(filename)
-    if content != old_content:
+    if not os.path.isfile(filename) or content != read_text_file(filename):
         with open(filename, "w", newline="") as f:
             f.write(content)
 
-- 
2.43.0


From e47b4c1de96fca8f5c69c0f56e1399511d8f2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 11/85] fix: amalgamate an include which is followed by a
 comment

---
 src/codemanip/amalgamated_header.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 528bb22..931c152 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -129,7 +129,11 @@ def _extract_local_include_file(code_line: str) -> str:
     """
     _code_line = code_line.strip()
 
-    result = _code_line.replace('#include "', "").replace("#include <", "").replace('"', "").replace(">", "")
+    # The name ends at the closing quote or bracket (it may be followed by a comment)
+    result = _code_line[len("#include ") + 1 :]
+    closing_char = ">" if _code_line.startswith("#include <") else '"'
+    if closing_char in result:
+        result = result[: result.index(closing_char)]
     # possible_include_paths = [ 'immvision/', 'immdebug/']
     # for possible_include_path in possible_include_paths:
     #     result = result.replace(possible_include_path, "")
-- 
2.43.0


From bd3b89f79e16b1daba5cf310a48eaf3b889ae2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 12/85] fix: align the Python comments without altering strings
 and docstrings

---
 src/codemanip/code_utils.py | 68 +++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index cea6a7d..7f90f34 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -126,10 +126,40 @@ def line_cpp_comment_position(code_line: str) -> Optional[int]:
     return None
 
 
+def lines_python_comment_positions(code_lines: list[str]) -> list[Optional[int]]:
+    """Position of the "#" of the comment of each line (None if there is no comment), taking into account the strings,
+    including the triple quoted strings that span several lines"""
+    positions: list[Optional[int]] = []
+    quote = ""  # The quotes that started the current string, if we are inside a string
+    for code_line in code_lines:
+        position = None
+        i = 0
+        while i < len(code_line):
+            char = code_line[i]
+            if quote != "":
+                if char == "\\":
+                    i += 2
+                elif code_line.startswith(quote, i):
+                    i += len(quote)
+                    quote = ""
+                else:
+                    i += 1
+            elif char == "#":
+                position = i
+                break
+            elif char == '"' or char == "'":
+                quote = char * 3 if code_line.startswith(char * 3, i) else char
+                i += len(quote)
+            else:
+                i += 1
+        if len(quote) == 1:
+            quote = ""  # Only triple quoted strings can span several lines
+        positions.append(position)
+    return positions
+
+
 def line_python_comment_position(code_line: str, skip_if_comment_only_line: bool = False) -> Optional[int]:
     """
-    Note: parsing comment position in python is complex.
-    This method applies naive strategies. May be use the python official parser module?
     Example comments that it can handle:
         a = 5 # my comment
         a = 5 # my "comment"
@@ -138,27 +168,10 @@ def line_python_comment_position(code_line: str, skip_if_comment_only_line: bool
         a = '#' # my comment
         a = '''#''' # my comment
     """
-
-    code_line = code_line.replace('"""', '__"')
-    code_line = code_line.replace("'''", "__'")
-    code_line = code_line.replace("'", '"')
-
-    in_string = False
-    has_seen_non_space = False
-    for i, char in enumerate(code_line):
-        if char == '"':
-            in_string = not in_string
-        if char == "#" and not in_string:
-            if not skip_if_comment_only_line:
-                return i
-            else:
-                if has_seen_non_space:
-                    return i
-
-        if not char.isspace():
-            has_seen_non_space = True
-
-    return None
+    position = lines_python_comment_positions([code_line])[0]
+    if position is not None and skip_if_comment_only_line and code_line[:position].strip() == "":
+        return None
+    return position
 
 
 def line_python_comment_eol_position(code_line: str) -> Optional[int]:
@@ -180,14 +193,17 @@ def strip_lines_right_space(lines: list[str]) -> list[str]:
 def align_python_comments_in_block(code: str) -> str:
     lines = code.split("\n")
 
-    comments_positions_or_none = list(map(line_python_comment_eol_position, lines))
+    def eol_comment_position(line: str, position: Optional[int]) -> Optional[int]:
+        is_comment_only_line = position is not None and line[:position].strip() == ""
+        return None if is_comment_only_line else position
+
+    comments_positions_or_none = list(map(eol_comment_position, lines, lines_python_comment_positions(lines)))
     comments_positions: list[int] = list(filter(lambda v: v is not None, comments_positions_or_none))  # type: ignore
 
     if len(comments_positions) > 0:
         new_lines = []
         max_position: int = max(comments_positions)
-        for line in lines:
-            comment_position = line_python_comment_eol_position(line)
+        for line, comment_position in zip(lines, comments_positions_or_none):
             if comment_position is not None:
                 start = line[:comment_position]
                 end = line[comment_position + 1 :]
-- 
2.43.0


From e6515db7e1c57e26af59828b4385500c16866ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 13/85] fix: reindent_code honours its indent_size parameter

---
 src/codemanip/code_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 7f90f34..a0d330e 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -329,7 +329,7 @@ def reindent_code(code: str, indent_size: int = 4, skip_first_line: bool = False
         code,
         indent_size=indent_size,
         skip_first_line=skip_first_line,
-        indent_str=indent_str,
+        indent_str=indent_str if len(indent_str) > 0 else None,
     )
     return code
 
-- 
2.43.0


From 56b01058058bb8fc010b3ff48eeca53004bc3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 14/85] fix: find the C++ comments after an escaped double
 quote char

---
 src/codemanip/code_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index a0d330e..8fd9b95 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -119,6 +119,8 @@ def line_cpp_comment_position(code_line: str) -> Optional[int]:
             in_string = not in_string
         elif not in_string and code_line.startswith("'\"'", pos):
             pos += 2  # a double quote as a char literal
+        elif not in_string and code_line.startswith("'\\\"'", pos):
+            pos += 3  # an escaped double quote as a char literal
         elif not in_string and code_line.startswith("//", pos):
             return pos
         pos += 1
-- 
2.43.0


From f3a607ce28cf0ea4b5375dc98fa9c6e8ef8d2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 15/85] fix: qualify the C++ identifiers in their innermost
 scope, leave strings and members as is

---
 .../cpp_types/scope/cpp_scope_process.py      | 156 +++++++-----------
 1 file changed, 64 insertions(+), 92 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index ddc9dbd..2e3aa7d 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -1,5 +1,7 @@
 # Heart of the scoping mechanism. Those functions depend on no other module,
 # so that a possible improvement via Cython can be done.
+from __future__ import annotations
+from typing import Callable
 
 
 def current_token_matches_scoped_identifier(
@@ -30,65 +32,79 @@ def current_token_matches_scoped_identifier(
     return False
 
 
-def apply_scoped_identifiers_to_code(
-    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
-) -> str:
+def _apply_to_identifiers(cpp_code: str, transform_identifier: Callable[[str], str]) -> str:
+    """Applies a function to the (possibly qualified) identifiers of a C++ code.
+    The strings, the chars and the comments are left as is, as well as the members that are accessed via `.` or `->`"""
     new_code = ""
     current_token = ""
     i = 0
-    in_string = False
-    in_comment = False
+
+    def flush_token() -> None:
+        nonlocal new_code, current_token
+        if current_token:
+            is_member_access = new_code.rstrip().endswith((".", "->"))
+            new_code += current_token if is_member_access else transform_identifier(current_token)
+            current_token = ""
 
     while i < len(cpp_code):
         char = cpp_code[i]
-
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
-
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
-
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
-                i += 1
-            else:
-                if current_token:
-                    for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
-                        if current_token_matches_scoped_identifier(
-                            scoped_identifier_qualified_name, current_scope_hierarchy, current_token
-                        ):
-                            current_token = scoped_identifier_qualified_name
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
-        else:
-            new_code += char
-
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
-
-        i += 1
+        next_two_chars = cpp_code[i : i + 2]
+
+        if char.isalnum() or char == "_":
+            current_token += char
+            i += 1
+            continue
+        if next_two_chars == "::":
+            current_token += "::"
+            i += 2
+            continue
+        if char == "'" and current_token[:1].isdigit():  # digit separator
+            current_token += char
+            i += 1
+            continue
+
+        # A string, a char, a comment, or any other char
+        end = i + 1
+        if char in "\"'":
+            while end < len(cpp_code) and cpp_code[end] != char:
+                end += 2 if cpp_code[end] == "\\" else 1
+            end += 1
+        elif next_two_chars == "//":
+            while end < len(cpp_code) and cpp_code[end] != "\n":
+                end += 1
+        elif next_two_chars == "/*":
+            comment_end = cpp_code.find("*/", i + 2)
+            end = comment_end + 2 if comment_end >= 0 else len(cpp_code)
+
+        if char in "\"'" and current_token in ["L", "u", "U", "u8"]:  # prefix of a string
+            new_code += current_token
+            current_token = ""
+        flush_token()
+        new_code += cpp_code[i:end]
+        i = end
 
     # Add the last token if it exists
-    if current_token:
-        for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
-            if current_token_matches_scoped_identifier(
-                scoped_identifier_qualified_name, current_scope_hierarchy, current_token
-            ):
-                current_token = scoped_identifier_qualified_name
-
-        new_code += current_token
+    flush_token()
 
     return new_code
 
 
+def apply_scoped_identifiers_to_code(
+    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
+) -> str:
+    def qualify(token: str) -> str:
+        # The innermost scope wins (current_scope_hierarchy starts with the innermost scope)
+        for current_scope_prefix in current_scope_hierarchy:
+            for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
+                if current_token_matches_scoped_identifier(
+                    scoped_identifier_qualified_name, [current_scope_prefix], token
+                ):
+                    return scoped_identifier_qualified_name
+        return token
+
+    return _apply_to_identifiers(cpp_code, qualify)
+
+
 def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) -> str:
     identifier_parts = scoped_identifier.split("::")
     scope_parts = current_scope.split("::")
@@ -122,48 +138,4 @@ def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) ->
 
 
 def make_terse_code(cpp_code: str, current_scope_prefix: str) -> str:
-    new_code = ""
-    current_token = ""
-    i = 0
-    in_string = False
-    in_comment = False
-
-    while i < len(cpp_code):
-        char = cpp_code[i]
-
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
-
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
-
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
-                i += 1
-            else:
-                if current_token:
-                    current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
-        else:
-            new_code += char
-
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
-
-        i += 1
-
-    # Add the last token if it exists
-    if current_token:
-        current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-        new_code += current_token
-
-    return new_code
+    return _apply_to_identifiers(cpp_code, lambda token: _make_terse_scoped_identifier(token, current_scope_prefix))
-- 
2.43.0


From f3b018790769331b8a1b378f8ca65c120c32d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 16/85] fix: qualify the names of the stub with the full path
 of their scope

---
 .../internal/adapted_types/adapted_class.py   | 18 +++----
 .../adapted_types/adapted_namespace.py        |  8 ++-
 src/litgen/internal/context/litgen_context.py | 18 +++++--
 src/litgen/internal/cpp_to_python.py          | 51 ++++++++++---------
 4 files changed, 53 insertions(+), 42 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0c5429b..9e6ed34 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -155,8 +155,10 @@ class AdaptedClassMember(AdaptedDecl):
 
     def _qualify_siblings(self, python_str: str) -> str:
         """Qualify sibling references if this member is inside a nested class."""
-        cpp_scope = self.class_parent.cpp_element().cpp_scope(include_self=False)
-        return cpp_to_python.qualify_sibling_in_scope(self.lg_context, python_str, cpp_scope)
+        cpp_scope = self.class_parent.cpp_element().cpp_scope(include_self=True)
+        return cpp_to_python.qualify_sibling_in_scope(
+            self.lg_context, python_str, cpp_scope, are_scope_names_visible=True
+        )
 
     def decl_type_python(self) -> str:
         if self._is_numeric_c_array():
@@ -384,7 +386,6 @@ class AdaptedClass(AdaptedElement):
         Only types (classes, enums) are registered - not methods, since
         method names don't appear as type annotations or default values.
         """
-        cpp_class_name = self.cpp_element().class_name
         names: set[str] = set()
         for elem in self.adapted_public_children:
             if isinstance(elem, AdaptedEnum):
@@ -392,10 +393,7 @@ class AdaptedClass(AdaptedElement):
             elif isinstance(elem, AdaptedClass):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
         if names:
-            from litgen.internal.context.litgen_context import ScopeMembers
-
-            python_scope_name = cpp_to_python._class_name_to_python(self.options, cpp_class_name)
-            self.lg_context.scope_members[cpp_class_name] = ScopeMembers(python_scope_name, names)
+            self.lg_context.register_scope_members(self.cpp_element().cpp_scope(include_self=True), names)
 
     def _init_add_adapted_class_member(self, cpp_decl_statement: CppDeclStatement) -> None:
         class_name = self.cpp_element().class_name
@@ -536,8 +534,8 @@ class AdaptedClass(AdaptedElement):
                     parents.append(custom_base)
             else:
                 for _access_type, base_class in self.cpp_element().base_classes():
-                    class_python_scope = cpp_to_python.cpp_scope_to_pybind_scope_str(
-                        self.options, base_class, include_self=True
+                    class_python_scope = cpp_to_python.cpp_scope_to_python_scope_str(
+                        self.options, base_class.cpp_scope(include_self=True)
                     )
                     parents.append(class_python_scope)
             if len(parents) == 0:
@@ -1322,7 +1320,7 @@ class PythonNamedConstructorHelper:
             """
 
             class_scope = self.adapted_class.cpp_element().cpp_scope()
-            for scope_part in class_scope.scope_parts:
+            for scope_part in reversed(class_scope.scope_parts):
                 if scope_part.scope_type == CppScopeType.Namespace:
                     str_cpp_code = "namespace " + scope_part.scope_name + " {\n" + str_cpp_code + "\n}\n"
                 elif scope_part.scope_type == CppScopeType.ClassOrStruct:
diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index 8375354..fc389d6 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -37,7 +37,6 @@ class AdaptedNamespace(AdaptedElement):
         if not self.flag_shall_create_namespace_as_module():
             return  # Root namespaces don't need this - they map to the module level
 
-        cpp_ns_name = self.namespace_name()
         names: set[str] = set()
         for elem in self.adapted_block.adapted_elements:
             if isinstance(elem, AdaptedEnum):
@@ -46,10 +45,9 @@ class AdaptedNamespace(AdaptedElement):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
             elif isinstance(elem, AdaptedFunction):
                 names.add(cpp_to_python.function_name_to_python(self.options, elem.cpp_element().function_name))
-        from litgen.internal.context.litgen_context import ScopeMembers
-
-        python_scope_name = cpp_to_python.namespace_name_to_python(self.options, cpp_ns_name)
-        self.lg_context.scope_members[cpp_ns_name] = ScopeMembers(python_scope_name, names)
+            elif isinstance(elem, AdaptedNamespace) and elem.flag_shall_create_namespace_as_module():
+                names.add(cpp_to_python.namespace_name_to_python(self.options, elem.namespace_name()))
+        self.lg_context.register_scope_members(self.cpp_element().cpp_scope(include_self=True), names)
 
     def namespace_name(self) -> str:
         return self.cpp_element().ns_name
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 178e34f..6504acd 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -24,13 +24,14 @@ class ScopeMembers:
     inside TextEditor.CursorSelection, a reference to CursorPosition
     must be qualified as TextEditor.CursorPosition.
 
-    python_scope_name: the Python name for the scope itself.
+    python_scope_name: the full Python name for the scope itself.
         Stored at registration time because the scope type reported by
         srcmlcpp can be unreliable for auto-generated constructors
         (they may report Namespace instead of ClassOrStruct), making
         it impossible to reliably recompute the Python name later.
-        E.g., "snippets" for namespace Snippets, "TextEditor" for class TextEditor.
-    member_names: Python names of types (classes, enums) and functions
+        E.g., "snippets" for namespace Snippets, "TextEditor" for class TextEditor,
+        "snippets.TextEditor" for the class Snippets::TextEditor.
+    member_names: Python names of types (classes, enums), functions and namespaces
         defined directly in this scope.
     """
 
@@ -54,7 +55,7 @@ class LitgenContext:
     # Key: CppScope.str_cpp (e.g., "" for root, "Snippets" for a namespace).
     _scoped_replacements: dict[str, ReplacementsCache]
 
-    # Registry of members defined in each scope, keyed by C++ scope name.
+    # Registry of members defined in each scope, keyed by C++ scope name (qualified).
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
@@ -78,6 +79,15 @@ class LitgenContext:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
 
+    def register_scope_members(self, cpp_scope: CppScope, names: set[str]) -> None:
+        """Register the Python names that are defined in a scope (a namespace may be opened several times)"""
+        from litgen.internal import cpp_to_python
+
+        if cpp_scope.str_cpp not in self.scope_members:
+            python_scope_name = cpp_to_python.cpp_scope_to_python_scope_str(self.options, cpp_scope)
+            self.scope_members[cpp_scope.str_cpp] = ScopeMembers(python_scope_name)
+        self.scope_members[cpp_scope.str_cpp].member_names.update(names)
+
     def qualified_stub_namespaces(self) -> set[CppQualifiedNamespaceName]:
         return self.namespaces_stub.qualified_namespaces()
 
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 63e954b..74cdb8e 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -285,43 +285,48 @@ def var_value_to_python(
     return r
 
 
+def cpp_scope_to_python_scope_str(options: LitgenOptions, cpp_scope: CppScope) -> str:
+    """The python path of a C++ scope, for example "my_namespace.MyClass" (the root namespaces are omitted)"""
+    python_names: list[str] = []
+    for scope_part in cpp_scope.scope_parts:
+        if scope_part.scope_type == CppScopeType.Namespace:
+            if scope_part.scope_name not in options.namespaces_root:
+                python_names.append(namespace_name_to_python(options, scope_part.scope_name))
+        else:
+            python_names.append(_class_name_to_python(options, scope_part.scope_name))
+    return ".".join(python_names)
+
+
 def qualify_sibling_in_scope(
     lg_context: LitgenContext,
     python_str: str,
     cpp_scope: CppScope,
+    are_scope_names_visible: bool = False,
 ) -> str:
     """Qualify unqualified sibling references in nested Python scopes.
 
     In Python, nested classes can't see names from their enclosing class or
     namespace proxy. This function detects unqualified references to names
-    defined in an enclosing scope and prefixes them with the enclosing name.
+    defined in an enclosing scope and prefixes them with the full name of this scope.
+    (if are_scope_names_visible, then the names defined in the scope itself are visible, and left as is)
 
     Applies to both namespace proxies and classes with inner classes/enums.
     """
     import re
 
-    for scope_part in cpp_scope.scope_parts:
-        cpp_name = scope_part.scope_name
-
-        # Skip root namespaces (they map to the module level, no proxy)
-        if cpp_name in lg_context.options.namespaces_root:
-            continue
-
-        scope_entry = lg_context.scope_members.get(cpp_name)
-        if not scope_entry:
-            continue
-        python_prefix = scope_entry.python_scope_name
-        names = scope_entry.member_names
-
-        # Sort by length (longest first) to avoid partial replacements
-        for name in sorted(names, key=len, reverse=True):
-            # Match `name` as a standalone word, not already preceded by a dot
-            # (which would mean it's already qualified)
-            pattern = r"(?<![.\w])" + re.escape(name) + r"\b"
-            replacement = python_prefix + "." + name
-            python_str = re.sub(pattern, replacement, python_str)
-
-    return python_str
+    def qualify(match: re.Match[str]) -> str:
+        name = match.group(0)
+        # The innermost scope wins, as in C++
+        for scope in cpp_scope.scope_hierarchy_list:
+            scope_entry = lg_context.scope_members.get(scope.str_cpp)
+            if scope_entry is not None and name in scope_entry.member_names:
+                if are_scope_names_visible and scope is cpp_scope:
+                    return name
+                return scope_entry.python_scope_name + "." + name
+        return name
+
+    # Match a standalone word, not already preceded by a dot (which would mean it's already qualified), nor in a string
+    return re.sub(r'"(?:\\.|[^"\\])*"|(?<![.\w])[^\W\d]\w*', qualify, python_str)
 
 
 def is_float_str(s: str) -> bool:
-- 
2.43.0


From 8a87404953860ea0b00f0f040018f24c1d96d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 17/85] fix: translate the namespaces of the stub by whole
 names, as soon as they are opened, not in strings

---
 .../adapted_types/adapted_namespace.py        |  1 +
 src/litgen/internal/context/litgen_context.py |  7 ++--
 src/litgen/internal/cpp_to_python.py          | 34 +++++++++++--------
 3 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index fc389d6..c38d7df 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -83,6 +83,7 @@ class AdaptedNamespace(AdaptedElement):
 
     # override
     def stub_lines(self) -> list[str]:
+        self.lg_context.encountered_namespaces.add(self.namespace_name())
         lines: list[str] = []
         if (
             not self.lg_context.namespaces_stub.was_namespace_created(self._qualified_namespace_name())
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 6504acd..1f8c19c 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -49,6 +49,7 @@ class LitgenContext:
     options: LitgenOptions
     encountered_cpp_boxed_types: set[CppTypeName]
     encountered_cpp_enums: list[CppEnum]
+    encountered_namespaces: set[CppNamespaceName]
     namespaces_stub: NamespacesCodeTree
     namespaces_pydef: NamespacesCodeTree
     # Per-scope replacement caches for default value translation.
@@ -70,6 +71,7 @@ class LitgenContext:
         self.options = options
         self.encountered_cpp_boxed_types = set()
         self.encountered_cpp_enums = []
+        self.encountered_namespaces = set()
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
         self._scoped_replacements = {}
@@ -91,8 +93,9 @@ class LitgenContext:
     def qualified_stub_namespaces(self) -> set[CppQualifiedNamespaceName]:
         return self.namespaces_stub.qualified_namespaces()
 
-    def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
-        return self.namespaces_stub.unqualified_namespaces()
+    def unqualified_namespaces(self) -> set[CppNamespaceName]:
+        """The namespaces encountered so far in the stubs"""
+        return self.encountered_namespaces
 
     def get_scoped_replacements(self, scope: CppScope) -> ReplacementsCache:
         """Get (or create) the ReplacementsCache for a given scope."""
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 74cdb8e..b71b320 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -152,6 +152,24 @@ def _strip_callable_param_names(python_type: str) -> str:
     return re.sub(r"Callable\[\[([^\]]*)\]", _replace_callable_params, python_type)
 
 
+def _namespaces_to_python(lg_context: LitgenContext, python_str: str) -> str:
+    """Translate the known namespaces (inside qualified names, not inside strings)"""
+    import re
+
+    def translate(match: re.Match[str]) -> str:
+        name = match.group(1)
+        if name is None:
+            return match.group(0)
+        elif name in lg_context.options.namespaces_root:
+            return ""
+        elif name in lg_context.unqualified_namespaces():
+            return namespace_name_to_python(lg_context.options, name) + "."
+        else:
+            return match.group(0)
+
+    return re.sub(r'"(?:\\.|[^"\\])*"|\b([^\W\d]\w*)\.', translate, python_str)
+
+
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     options = lg_context.options
     specialized_type_python_name = options.class_template_options.specialized_type_python_name_str(
@@ -178,13 +196,7 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     # Fix for std::optional (issue origin unknown)
     r = r.replace("Optional[" + " ", "Optional[")
 
-    # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
-        python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
-        if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
-    for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+    r = _namespaces_to_python(lg_context, r)
 
     # Strip C++ parameter names that leaked into Callable type hints.
     # E.g. `Callable[[Decorator decorator], None]` -> `Callable[[Decorator], None]`
@@ -267,13 +279,7 @@ def var_value_to_python(
         else:
             r = f"initialized with {inner}"
 
-    # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
-        python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
-        if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
-    for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+    r = _namespaces_to_python(lg_context, r)
 
     # If this default value uses a bound template type, try to translate it
     specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
-- 
2.43.0


From 8dce96837360093b3ee3b6cab41d075a5764ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 18/85] fix: keep the qualification of the types that are
 hidden by homonyms in the stub

---
 .../adapt_function_params/apply_all_adapters.py    |  2 +-
 src/litgen/internal/adapted_types/adapted_class.py |  2 +-
 src/srcmlcpp/cpp_types/base/cpp_element.py         |  5 +++++
 src/srcmlcpp/cpp_types/decls_types/cpp_decl.py     |  6 +++++-
 src/srcmlcpp/cpp_types/decls_types/cpp_type.py     |  6 +++++-
 src/srcmlcpp/cpp_types/scope/cpp_scope_process.py  | 14 ++++++++++++--
 6 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 63b85f2..7014894 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -128,7 +128,7 @@ def _apply_all_adapters_on_constructor(inout_adapted_function: AdaptedFunction)
     cpp_wrapper_function.cpp_element_comments.comment_on_previous_lines = (
         inout_adapted_function.cpp_element().cpp_element_comments.comment_on_previous_lines
     )
-    cpp_wrapper_function.parent = inout_adapted_function.cpp_element().parent
+    cpp_wrapper_function.set_new_parent(inout_adapted_function.cpp_element().parent)
     ctor_adapted_wrapper_function = AdaptedFunction(
         inout_adapted_function.lg_context,
         cpp_wrapper_function,
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 9e6ed34..baafb4b 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1356,7 +1356,7 @@ class PythonNamedConstructorHelper:
             public_regions = cpp_unit.all_cpp_elements_recursive(CppPublicProtectedPrivate)
             assert len(public_regions) == 1
             public_region = public_regions[0]
-            public_region.parent = self.adapted_class.cpp_element().block
+            public_region.set_new_parent(self.adapted_class.cpp_element().block)
 
             # Find the constructor
             ctors = cpp_unit.all_cpp_elements_recursive(CppConstructorDecl)
diff --git a/src/srcmlcpp/cpp_types/base/cpp_element.py b/src/srcmlcpp/cpp_types/base/cpp_element.py
index d0fea23..377bbe1 100644
--- a/src/srcmlcpp/cpp_types/base/cpp_element.py
+++ b/src/srcmlcpp/cpp_types/base/cpp_element.py
@@ -118,6 +118,11 @@ class CppElement(SrcmlWrapper):
         if hasattr(self, "_cached_cpp_scope_include_self_str"):
             del self._cached_cpp_scope_include_self_str
 
+    def set_new_parent(self, parent: CppElement | None) -> None:
+        """Move this element (and its children) to another parent, hence to another scope"""
+        self.parent = parent
+        self.visit_cpp_breadth_first(lambda cpp_element, _event, _depth: cpp_element._clear_scope_cache())
+
     def cpp_scope_str(self, include_self: bool = False) -> str:
         if include_self:
             if hasattr(self, "_cached_cpp_scope_include_self_str"):
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 83cdc02..e9c5c53 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -350,7 +350,11 @@ class CppDecl(CppElementAndComment):
         # initial_value_fully_qualified = self._initial_value_code_with_qualified_types(current_scope)
         from srcmlcpp.cpp_types.scope.cpp_scope_process import make_terse_code
 
-        r = make_terse_code(self.initial_value_code, current_scope.str_cpp_prefix)
+        r = make_terse_code(
+            self.initial_value_code,
+            current_scope.str_cpp_prefix,
+            lambda identifier: self.root_cpp_unit()._scope_identifiers.qualify_cpp_code(identifier, self.cpp_scope()),
+        )
         return r
 
     def with_terse_types(self, current_scope: CppScope | None = None) -> CppDecl:
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 6053bef..6b47e32 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -258,7 +258,11 @@ class CppType(CppElementAndComment):
 
         from srcmlcpp.cpp_types.scope.cpp_scope_process import make_terse_code
 
-        new_type_name = make_terse_code(type_name_qualified, current_scope.str_cpp_prefix)
+        new_type_name = make_terse_code(
+            type_name_qualified,
+            current_scope.str_cpp_prefix,
+            lambda identifier: self.root_cpp_unit()._scope_identifiers.qualify_cpp_code(identifier, self.cpp_scope()),
+        )
         if new_type_name != " ".join(self.typenames):
             new_cpp_type = copy.deepcopy(self)
             new_cpp_type.typenames = new_type_name.split(" ")
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index 2e3aa7d..9114134 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -137,5 +137,15 @@ def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) ->
     return scoped_identifier
 
 
-def make_terse_code(cpp_code: str, current_scope_prefix: str) -> str:
-    return _apply_to_identifiers(cpp_code, lambda token: _make_terse_scoped_identifier(token, current_scope_prefix))
+def make_terse_code(
+    cpp_code: str, current_scope_prefix: str, qualify_identifier: Callable[[str], str] = lambda identifier: identifier
+) -> str:
+    def make_terse(token: str) -> str:
+        terse_token = _make_terse_scoped_identifier(token, current_scope_prefix)
+        # Keep the qualification if, in this scope, the terse identifier is the name of another element
+        terse_token_qualified = qualify_identifier(terse_token)
+        if terse_token_qualified not in [terse_token, qualify_identifier(token)]:
+            return token
+        return terse_token
+
+    return _apply_to_identifiers(cpp_code, make_terse)
-- 
2.43.0


From 5f9972e14ebc887678f04b65f839eb31444f9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:35 +0000
Subject: [PATCH 19/85] fix: find the base class in the innermost scope

---
 src/srcmlcpp/cpp_types/blocks/cpp_block.py | 35 +++++++---------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_block.py b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
index 1efef0c..bee8098 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_block.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
@@ -106,34 +106,19 @@ class CppBlock(CppElementAndComment):
         """
         if current_scope is None:
             current_scope = self.cpp_scope()
-        if "::" in class_name_with_scope:
-            items = class_name_with_scope.split("::")
-            class_name = items[-1]
-            class_scope_str = "::".join(items[:-1])
+        if class_name_with_scope.startswith("::"):
+            searched_scope_prefixes = [""]
+            class_name_with_scope = class_name_with_scope[2:]
         else:
-            class_name = class_name_with_scope
-            class_scope_str = ""
+            # The innermost scope comes first
+            searched_scope_prefixes = current_scope.scope_hierarchy_prefix_list
 
         all_structs = self.all_structs_recursive()
-        for struct in all_structs:
-            current_scope_str = current_scope.str_cpp
-
-            searched_scopes_strs = []
-            searched_scopes_strs.append(class_scope_str)
-            if len(current_scope_str) > 0:
-                searched_scopes_strs.append(current_scope_str + "::" + class_scope_str)
-
-            struct_scope_str = struct.cpp_scope_str(include_self=False)
-
-            is_struct_visible_from_scope = False
-            for searched_scope_str in searched_scopes_strs:
-                if searched_scope_str.startswith(struct_scope_str):
-                    is_struct_visible_from_scope = True
-
-            is_name_equal = struct.class_name == class_name
-
-            if is_name_equal and is_struct_visible_from_scope:
-                return struct
+        for searched_scope_prefix in searched_scope_prefixes:
+            for struct in all_structs:
+                struct_scope = struct.cpp_scope(include_self=False)
+                if struct_scope.qualified_name(struct.class_name) == searched_scope_prefix + class_name_with_scope:
+                    return struct
 
         return None
 
-- 
2.43.0


From 8e507ac87c5ed7530ef63e2457f64f3d1f1e2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 20/85] fix: keep the strings and binary operators of the
 default values, translate their integer literals

---
 src/litgen/internal/cpp_to_python.py | 60 ++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index b71b320..94a6f5e 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -167,7 +167,7 @@ def _namespaces_to_python(lg_context: LitgenContext, python_str: str) -> str:
         else:
             return match.group(0)
 
-    return re.sub(r'"(?:\\.|[^"\\])*"|\b([^\W\d]\w*)\.', translate, python_str)
+    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\b([^\W\d]\w*)\.', translate, python_str)
 
 
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
@@ -258,17 +258,68 @@ def var_name_to_python(options: LitgenOptions, name: str) -> str:
     return r
 
 
+def _number_to_python(number_cpp: str) -> str:
+    """Translates a C++ integer literal: octal numbers, digit separators, and suffixes (the suffixes of the floating
+    point literals are handled by the value replacements)"""
+    import re
+
+    number = number_cpp.replace("'", "_")
+    match = re.fullmatch(r"(0[xX][0-9a-fA-F_]+|0[bB][01_]+|[0-9][0-9_]*)[uUlLzZ]*", number)
+    if match is not None:
+        number = match.group(1)
+        if len(number) > 1 and number[0] == "0" and number[1] not in "xXbB":
+            number = "0o" + number[1:].lstrip("_")
+    elif number[-1] in "lL":
+        number = number[:-1]
+    return number
+
+
+def _protect_value_parts(value_cpp: str) -> tuple[str, list[str]]:
+    """Replaces the parts of a C++ value that the type and value replacements shall not modify by place-holders:
+    strings, characters, and the binary operators * and & (whereas they are removed from the types).
+    """
+    import re
+
+    protected_parts: list[str] = []
+
+    def protect(match: re.Match[str]) -> str:
+        if match.group("number") is not None:
+            return _number_to_python(match.group("number"))
+        part = match.group("literal") or match.group("operator")
+        protected_parts.append(part)
+        place_holder = f"\x00{len(protected_parts) - 1}\x00"
+        return f'"{place_holder}"' if match.group("literal") is not None else place_holder
+
+    regex = (
+        r"""(?P<literal>"(?:\\.|[^"\\])*"|(?<![0-9a-zA-Z_])'(?:\\.|[^'\\])+')"""
+        r"""|(?P<number>(?<![\w.])\.?[0-9](?:[eEpP][+-]|'?[\w.])*)"""
+        r"""|(?<=[\w)\]"'])(?P<operator>\s*[*&])(?=\s*[\w("'+~!-])(?![&*])"""
+    )
+    return re.sub(regex, protect, value_cpp), protected_parts
+
+
+def _restore_value_parts(value_python: str, protected_parts: list[str]) -> str:
+    import re
+
+    def restore(match: re.Match[str]) -> str:
+        return protected_parts[int(match.group(1) or match.group(2))]
+
+    return re.sub('"\x00([0-9]+)\x00"|\x00([0-9]+)\x00', restore, value_python)
+
+
 def var_value_to_python(
     lg_context: LitgenContext,
     default_value_cpp: str,
     cpp_scope: Optional[CppScope] = None,
 ) -> str:
+    import re
+
     options = lg_context.options
-    r = default_value_cpp
+    r, protected_parts = _protect_value_parts(default_value_cpp)
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
-        r = r.replace(number_macro, str(value))
+        r = re.sub(rf"\b{re.escape(number_macro)}\b", str(value), r)
     r = lg_context.apply_scoped_var_value_replacements(r, cpp_scope)
 
     # If this value is a std::initializer_list, try to translate it
@@ -280,6 +331,7 @@ def var_value_to_python(
             r = f"initialized with {inner}"
 
     r = _namespaces_to_python(lg_context, r)
+    r = _restore_value_parts(r, protected_parts)
 
     # If this default value uses a bound template type, try to translate it
     specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
@@ -332,7 +384,7 @@ def qualify_sibling_in_scope(
         return name
 
     # Match a standalone word, not already preceded by a dot (which would mean it's already qualified), nor in a string
-    return re.sub(r'"(?:\\.|[^"\\])*"|(?<![.\w])[^\W\d]\w*', qualify, python_str)
+    return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|(?<![.\w])[^\W\d]\w*', qualify, python_str)
 
 
 def is_float_str(s: str) -> bool:
-- 
2.43.0


From 874c504389a4c4362115ea25c29d85325df5c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 21/85] fix: use the python names of the enum values and static
 members of any scope in the default values

---
 .../internal/adapted_types/adapted_class.py   | 10 ++++++
 .../internal/adapted_types/adapted_enum.py    | 24 +++++--------
 src/litgen/internal/context/litgen_context.py | 35 ++++++++++++++-----
 .../internal/context/replacements_cache.py    |  9 +++--
 .../cpp_types/scope/cpp_scope_identifiers.py  |  6 ++++
 5 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index baafb4b..64cfa98 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -8,6 +8,7 @@ import munch  # type: ignore
 import litgen
 import srcmlcpp
 from codemanip import code_utils
+from codemanip.code_replacements import RegexReplacement
 
 from srcmlcpp.cpp_types import (
     CppDecl,
@@ -153,6 +154,14 @@ class AdaptedClassMember(AdaptedDecl):
         else:
             return True
 
+    def register_name_replacement(self) -> None:
+        """Register a scoped replacement, so that the default values which use this member (e.g. a static const member)
+        use its python name"""
+        if self.decl_name_cpp() != self.decl_name_python():
+            scope = self.class_parent.cpp_element().cpp_scope(include_self=True)
+            replacement = RegexReplacement(rf"\b{self.decl_name_cpp()}\b", self.decl_name_python())
+            self.lg_context.get_scoped_replacements(scope).store_replacement(replacement)
+
     def _qualify_siblings(self, python_str: str) -> str:
         """Qualify sibling references if this member is inside a nested class."""
         cpp_scope = self.class_parent.cpp_element().cpp_scope(include_self=True)
@@ -412,6 +421,7 @@ class AdaptedClass(AdaptedElement):
                 adapted_class_member = AdaptedClassMember(self.lg_context, cpp_decl, self)
                 if adapted_class_member.check_can_publish():
                     self.adapted_public_children.append(adapted_class_member)
+                    adapted_class_member.register_name_replacement()
 
     def _init_add_adopted_class_function(self, cpp_function_decl: CppFunctionDecl) -> None:
         class_name = self.cpp_element().class_name
diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index b6b517c..b3d9eea 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -98,12 +98,12 @@ class AdaptedEnumDecl(AdaptedDecl):
         # Sometimes, enum decls have interdependent values like this:
         #     enum MyEnum { /*....*/ MyEnum_foo = MyEnum_a | MyEnum_b };
         # So, we search and replace enum strings in the default value
-        replacements = self.enum_parent.cpp_to_python_replacements(from_inside_block=True)
+        replacements = self.enum_parent.cpp_to_python_replacements()
         decl_value_python = replacements.apply(decl_value_python)
 
         return decl_value_python
 
-    def cpp_to_python_replacements(self, from_inside_block: bool = False) -> RegexReplacementList:
+    def cpp_to_python_replacements(self) -> RegexReplacementList:
         replacement_list = RegexReplacementList()
 
         enum_name_cpp = self.enum_parent.cpp_element().enum_name
@@ -115,21 +115,13 @@ class AdaptedEnumDecl(AdaptedDecl):
 
         by_what = f"{enum_name_python}.{enum_member_name_python}"
         if is_enum_class:
-            replace_what = rf"\b{enum_name_cpp}.{enum_member_name_cpp}\b|{enum_name_cpp}.{enum_member_name_cpp}\b"
+            replace_what = rf"\b{enum_name_cpp}\.{enum_member_name_cpp}\b"
             replacement = RegexReplacement(replace_what, by_what)
             replacement_list.add_first_regex_replacement(replacement)
         else:
-            if enum_member_name_cpp.lower().startswith(enum_name_cpp.lower()):
-                replace_what = rf"\b{enum_member_name_cpp}\b"
-                replacement = RegexReplacement(replace_what, by_what)
-                replacement_list.add_first_regex_replacement(replacement)
-            else:
-                # No replacement, this could lead to many unwanted replacements!
-                # Only accept this if we are inside the enum generation
-                if from_inside_block:
-                    replace_what_inside = rf"\b{enum_member_name_cpp}\b"
-                    replacement_inside_block = RegexReplacement(replace_what_inside, by_what)
-                    replacement_list.add_first_regex_replacement(replacement_inside_block)
+            replace_what = rf"\b(?:{enum_name_cpp}\.)?{enum_member_name_cpp}\b"
+            replacement = RegexReplacement(replace_what, by_what)
+            replacement_list.add_first_regex_replacement(replacement)
 
         return replacement_list
 
@@ -201,10 +193,10 @@ class AdaptedEnum(AdaptedElement):
                     self.adapted_children.append(new_adapted_decl)
                     self.adapted_enum_decls.append(new_adapted_decl)
 
-    def cpp_to_python_replacements(self, from_inside_block: bool = False) -> RegexReplacementList:
+    def cpp_to_python_replacements(self) -> RegexReplacementList:
         r = RegexReplacementList()
         for decl in self.adapted_enum_decls:
-            r.merge_replacements(decl.cpp_to_python_replacements(from_inside_block))
+            r.merge_replacements(decl.cpp_to_python_replacements())
         return r
 
     # override
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 1f8c19c..21bb730 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -105,14 +105,31 @@ class LitgenContext:
         return self._scoped_replacements[key]
 
     def apply_scoped_var_value_replacements(self, s: str, cpp_scope: CppScope | None) -> str:
-        """Apply var value replacements from all scopes in the hierarchy.
+        """Apply the var value replacements to the (possibly qualified) names of a value, for example "A.B.name".
 
-        For scope A::B::C, applies replacements from A::B::C, A::B, A, and root ("").
+        As in C++, a name is first searched in the innermost scope: inside the scope C, "A.B.name" may be a member
+        of C::A::B, or else of A::B. (s was already converted to Python, i.e. "::" was replaced by ".")
         """
-        if cpp_scope is None:
-            cpp_scope = CppScope([])
-        for scope in cpp_scope.scope_hierarchy_list:
-            key = scope.str_cpp
-            if key in self._scoped_replacements:
-                s = self._scoped_replacements[key].apply(s)
-        return s
+        import re
+
+        scope_hierarchy = [CppScope([])] if cpp_scope is None else cpp_scope.scope_hierarchy_list
+
+        def translate(match: re.Match[str]) -> str:
+            name_parts = match.group(0).split(".")
+            is_function_call = s[match.end() :].lstrip().startswith("(")
+            for scope in scope_hierarchy:
+                for nb_qualifiers in range(len(name_parts)):
+                    scope_parts = [scope.str_cpp] if len(scope.str_cpp) > 0 else []
+                    name_scope = "::".join(scope_parts + name_parts[:nb_qualifiers])
+                    cache = self._scoped_replacements.get(name_scope)
+                    if cache is None:
+                        continue
+                    if is_function_call and name_scope not in [scope.str_cpp for scope in scope_hierarchy]:
+                        continue  # The names of the functions are translated only inside their scope
+                    qualifiers = "".join(name_part + "." for name_part in name_parts[:nb_qualifiers])
+                    replaced = cache.replace_at(s, match.start() + len(qualifiers), match.end())
+                    if replaced is not None:
+                        return qualifiers + replaced
+            return match.group(0)
+
+        return re.sub(r"(?<![\w.])[^\W\d]\w*(?:\.[^\W\d]\w*)*", translate, s)
diff --git a/src/litgen/internal/context/replacements_cache.py b/src/litgen/internal/context/replacements_cache.py
index 5e7bb09..d48ed0b 100644
--- a/src/litgen/internal/context/replacements_cache.py
+++ b/src/litgen/internal/context/replacements_cache.py
@@ -20,5 +20,10 @@ class ReplacementsCache:
     def store_replacement(self, replacement: RegexReplacement) -> None:
         self.replacement_list.replacements.append(replacement)
 
-    def apply(self, s: str) -> str:
-        return self.replacement_list.apply(s)
+    def replace_at(self, s: str, start: int, end: int) -> str | None:
+        """Returns the replacement of the name s[start:end], or None if there is no replacement for it"""
+        for replacement in self.replacement_list.replacements:
+            match = replacement.replace_what_re.match(s, start)
+            if match is not None and match.end() == end:
+                return match.expand(replacement.by_what)
+        return None
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
index ed1e8b6..e4fa25e 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
@@ -38,6 +38,12 @@ class CppScopeIdentifiers:
                 qualified_identifier = element_scope.qualified_name(identifier_name)
                 self._scoped_identifiers.append(qualified_identifier)
 
+            # The values of an unscoped enum can also be qualified with the name of the enum
+            if isinstance(element, CppEnum) and not element.is_enum_class() and hasattr(element, "block"):
+                enum_qualified_name = element_scope.qualified_name(element.name())
+                for enum_decl in element.get_enum_decls():
+                    self._scoped_identifiers.append(enum_qualified_name + "::" + enum_decl.decl_name)
+
     def qualify_cpp_code(self, cpp_code: str, current_scope: CppScope) -> str:
         """
         cpp_code is an extract of C++ code that come from a declaration. It can either be a type or a value
-- 
2.43.0


From aa470ee4b6bc3cebe365f788c341d13b6e1ea70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:40 +0000
Subject: [PATCH 22/85] fix: the names of an inner scope hide those of the
 outer scopes in the values

---
 src/litgen/internal/context/litgen_context.py     | 11 +++++++++++
 src/srcmlcpp/cpp_types/scope/cpp_scope_process.py | 15 +++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 21bb730..430a031 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -114,6 +114,15 @@ class LitgenContext:
 
         scope_hierarchy = [CppScope([])] if cpp_scope is None else cpp_scope.scope_hierarchy_list
 
+        def is_hidden_by_inner_scope(python_name: str, scope: CppScope) -> bool:
+            if scope.str_cpp not in self.scope_members:
+                return False
+            for inner_scope in scope_hierarchy[: scope_hierarchy.index(scope)]:
+                inner_scope_members = self.scope_members.get(inner_scope.str_cpp)
+                if inner_scope_members is not None and python_name in inner_scope_members.member_names:
+                    return True
+            return False
+
         def translate(match: re.Match[str]) -> str:
             name_parts = match.group(0).split(".")
             is_function_call = s[match.end() :].lstrip().startswith("(")
@@ -129,6 +138,8 @@ class LitgenContext:
                     qualifiers = "".join(name_part + "." for name_part in name_parts[:nb_qualifiers])
                     replaced = cache.replace_at(s, match.start() + len(qualifiers), match.end())
                     if replaced is not None:
+                        if nb_qualifiers == 0 and is_hidden_by_inner_scope(replaced.split(".")[0], scope):
+                            qualifiers = self.scope_members[name_scope].python_scope_name + "."
                         return qualifiers + replaced
             return match.group(0)
 
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index 9114134..bab33b5 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -94,12 +94,15 @@ def apply_scoped_identifiers_to_code(
 ) -> str:
     def qualify(token: str) -> str:
         # The innermost scope wins (current_scope_hierarchy starts with the innermost scope)
+        first_name = token.split("::")[0]
         for current_scope_prefix in current_scope_hierarchy:
             for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
                 if current_token_matches_scoped_identifier(
                     scoped_identifier_qualified_name, [current_scope_prefix], token
                 ):
                     return scoped_identifier_qualified_name
+            if first_name != token and current_scope_prefix + first_name in scoped_identifier_qualified_names:
+                return token  # As in C++, first_name hides the same name in the outer scopes
         return token
 
     return _apply_to_identifiers(cpp_code, qualify)
@@ -142,10 +145,14 @@ def make_terse_code(
 ) -> str:
     def make_terse(token: str) -> str:
         terse_token = _make_terse_scoped_identifier(token, current_scope_prefix)
-        # Keep the qualification if, in this scope, the terse identifier is the name of another element
-        terse_token_qualified = qualify_identifier(terse_token)
-        if terse_token_qualified not in [terse_token, qualify_identifier(token)]:
-            return token
+        # Keep the qualification if, in this scope, the terse identifier (or its first names) is the name of another element
+        nb_removed_parts = token.count("::") - terse_token.count("::")
+        terse_parts = terse_token.split("::")
+        for i in range(1, len(terse_parts) + 1):
+            terse_start = "::".join(terse_parts[:i])
+            start = "::".join(token.split("::")[: nb_removed_parts + i])
+            if qualify_identifier(terse_start) not in [terse_start, qualify_identifier(start)]:
+                return token
         return terse_token
 
     return _apply_to_identifiers(cpp_code, make_terse)
-- 
2.43.0


From 96d895f49f7b4f5c0785622223eebc6fd3ddff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 23/85] fix: values of enumerators and array sizes that follow
 octal, hexadecimal or suffixed literals

---
 src/srcmlcpp/cpp_types/blocks/cpp_unit.py | 16 +------------
 src/srcmlcpp/cpp_types/cpp_enum.py        |  7 +++---
 src/srcmlcpp/srcmlcpp_options.py          | 28 +++++++++++++++++------
 3 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_unit.py b/src/srcmlcpp/cpp_types/blocks/cpp_unit.py
index b5e23e5..1938a33 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_unit.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_unit.py
@@ -1,29 +1,15 @@
 from __future__ import annotations
-import re
 from dataclasses import dataclass
 
 from srcmlcpp.cpp_types.base.cpp_element import CppElement
 from srcmlcpp.cpp_types.blocks.cpp_block import CppBlock
 from srcmlcpp.srcml_wrapper import SrcmlWrapper
+from srcmlcpp.srcmlcpp_options import _parse_c_int_literal
 from srcmlcpp.cpp_types.scope.cpp_scope_identifiers import CppScopeIdentifiers
 
 __all__ = ["CppUnit"]
 
 
-def _parse_c_int_literal(text: str) -> int | None:
-    """Parse a C integer literal (decimal, hex, octal), tolerating surrounding
-    whitespace and integer suffixes (u/U/l/L). Returns None if not an int literal."""
-    core = text.strip().rstrip("uUlL")
-    if len(core) == 0:
-        return None
-    try:
-        if re.fullmatch(r"0[0-7]+", core):  # C-style octal (e.g. 010)
-            return int(core, 8)
-        return int(core, 0)  # handles decimal, 0x..., 0o..., 0b...
-    except ValueError:
-        return None
-
-
 @dataclass
 class CppUnit(CppBlock):
     """A kind of block representing a full file."""
diff --git a/src/srcmlcpp/cpp_types/cpp_enum.py b/src/srcmlcpp/cpp_types/cpp_enum.py
index e9e0f63..8df21c0 100644
--- a/src/srcmlcpp/cpp_types/cpp_enum.py
+++ b/src/srcmlcpp/cpp_types/cpp_enum.py
@@ -15,6 +15,7 @@ from srcmlcpp.scrml_warning_settings import WarningType
 from srcmlcpp.cpp_types.blocks.cpp_block import CppBlock
 from srcmlcpp.cpp_types.decls_types.cpp_decl import CppDecl
 from srcmlcpp.srcml_wrapper import SrcmlWrapper
+from srcmlcpp.srcmlcpp_options import _parse_c_int_literal
 
 __all__ = ["CppEnum"]
 
@@ -105,10 +106,10 @@ class CppEnum(CppElementAndComment):
                         decl_with_value.initial_value_code = "0"  # in C/C++ the first value is 0 by default
                     else:
                         last_decl_value_str = last_decl.initial_value_code
-                        try:
-                            last_decl_value_int = int(last_decl_value_str)
+                        last_decl_value_int = _parse_c_int_literal(last_decl_value_str)
+                        if last_decl_value_int is not None:
                             decl_with_value.initial_value_code = str(last_decl_value_int + 1)
-                        except ValueError:
+                        else:
                             decl.emit_warning(
                                 """
                                 Cannot parse the value of this enum element.
diff --git a/src/srcmlcpp/srcmlcpp_options.py b/src/srcmlcpp/srcmlcpp_options.py
index b3f742f..6be8d94 100644
--- a/src/srcmlcpp/srcmlcpp_options.py
+++ b/src/srcmlcpp/srcmlcpp_options.py
@@ -3,6 +3,7 @@ Options for srcmlcpp. Read the doc near all options elements.
 """
 
 from __future__ import annotations
+import re
 from typing import Callable, Optional
 
 from codemanip.code_utils import split_string_by_pipe_char, RegexOrMatcher
@@ -115,15 +116,28 @@ class SrcmlcppOptions:
         return split_string_by_pipe_char(self.functions_api_prefixes)
 
 
+def _parse_c_int_literal(text: str) -> Optional[int]:
+    """Parse a C integer literal (decimal, hex, octal, binary), tolerating surrounding
+    whitespace, digit separators and integer suffixes (u/U/l/L). Returns None if not an int literal."""
+    core = text.strip().rstrip("uUlL").replace("'", "")
+    if len(core) == 0:
+        return None
+    try:
+        if re.fullmatch(r"[+-]?0[0-7]+", core):  # C-style octal (e.g. 010)
+            return int(core, 8)
+        return int(core, 0)  # handles decimal, 0x..., 0o..., 0b...
+    except ValueError:
+        return None
+
+
 def _int_from_str_or_named_number_macros(options: SrcmlcppOptions, int_str: Optional[str]) -> Optional[int]:
     if int_str is None:
         return None
 
-    try:
-        v = int(int_str)
+    v = _parse_c_int_literal(int_str)
+    if v is not None:
         return v
-    except ValueError:
-        if int_str in options.named_number_macros:
-            return options.named_number_macros[int_str]
-        else:
-            return None
+    elif int_str in options.named_number_macros:
+        return options.named_number_macros[int_str]
+    else:
+        return None
-- 
2.43.0


From 8b6512097b654d15bce971ab21ef93de7789fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 24/85] fix: anonymous enums are not published

---
 src/litgen/internal/adapted_types/adapted_block.py | 5 +++++
 src/litgen/internal/adapted_types/adapted_class.py | 5 +++++
 src/srcmlcpp/scrml_warning_settings.py             | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_block.py b/src/litgen/internal/adapted_types/adapted_block.py
index ff98877..cc9512e 100644
--- a/src/litgen/internal/adapted_types/adapted_block.py
+++ b/src/litgen/internal/adapted_types/adapted_block.py
@@ -138,6 +138,11 @@ class AdaptedBlock(AdaptedElement):
                     if is_included and is_publishable:
                         self.adapted_elements.append(AdaptedDefine(self.lg_context, child))
                 elif isinstance(child, CppEnum):
+                    if len(child.enum_name) == 0:
+                        child.emit_warning(
+                            "Anonymous enums are not published", WarningType.LitgenEnumAnonymousIgnored
+                        )
+                        continue
                     is_excluded_by_name = code_utils.does_match_regex_or_matcher(
                         self.options.enum_exclude_by_name__regex, child.enum_name
                     )
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 64cfa98..d67e161 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -456,6 +456,11 @@ class AdaptedClass(AdaptedElement):
                         adapted_subclass = AdaptedClass(self.lg_context, child)
                         self.adapted_public_children.append(adapted_subclass)
                 elif isinstance(child, CppEnum):
+                    if len(child.enum_name) == 0:
+                        child.emit_warning(
+                            "Anonymous enums are not published", WarningType.LitgenEnumAnonymousIgnored
+                        )
+                        continue
                     is_excluded_by_name = code_utils.does_match_regex_or_matcher(
                         self.options.enum_exclude_by_name__regex, child.enum_name
                     )
diff --git a/src/srcmlcpp/scrml_warning_settings.py b/src/srcmlcpp/scrml_warning_settings.py
index 9d1d394..4c37e9e 100644
--- a/src/srcmlcpp/scrml_warning_settings.py
+++ b/src/srcmlcpp/scrml_warning_settings.py
@@ -59,3 +59,4 @@ class WarningType(enum.Enum):
     # Cannot parse the value of this enum element.
     # Hint: maybe add an entry to SrcmlcppOptions.named_number_macros
     LitgenEnumUnparsableValue = enum.auto()
+    LitgenEnumAnonymousIgnored = enum.auto()
-- 
2.43.0


From 8739dd4443d0f347692fee40e5e00207f501b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 25/85] fix: references inside enum values are qualified in the
 scope of the enum

---
 src/litgen/internal/adapted_types/adapted_enum.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index b3d9eea..90158c3 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -93,13 +93,11 @@ class AdaptedEnumDecl(AdaptedDecl):
 
     def decl_value_python(self) -> str:
         decl_value_cpp = self.cpp_element().initial_value_code
-        decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp)
-
         # Sometimes, enum decls have interdependent values like this:
         #     enum MyEnum { /*....*/ MyEnum_foo = MyEnum_a | MyEnum_b };
-        # So, we search and replace enum strings in the default value
-        replacements = self.enum_parent.cpp_to_python_replacements()
-        decl_value_python = replacements.apply(decl_value_python)
+        # The names of these values are searched in the scope of the enum
+        enum_scope = self.enum_parent.cpp_element().cpp_scope(include_self=True)
+        decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp, enum_scope)
 
         return decl_value_python
 
-- 
2.43.0


From ca60d4aaeedce37a666a4b628972149ac4892c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 26/85] fix: COUNT and *_COUNT enumerators are recognized as
 count values, as documented

---
 src/litgen/internal/cpp_to_python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 94a6f5e..3c45284 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -709,7 +709,10 @@ def enum_element_is_count(options: LitgenOptions, enum: CppEnum, enum_element: C
     is_class_enum = enum.enum_type == "class"
     value_name = enum_element.decl_name
 
-    if not code_utils.does_match_regex_or_matcher(options.fn_params_buffer_size_names__regex, value_name):
+    is_upper_case_count = value_name == "COUNT" or value_name.endswith("_COUNT")
+    if not is_upper_case_count and not code_utils.does_match_regex_or_matcher(
+        options.fn_params_buffer_size_names__regex, value_name
+    ):
         return False
 
     if is_class_enum:
-- 
2.43.0


From c051e6ff67f5d457bf7e9ad535589da876207284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 27/85] fix: overloads without parameters: static methods, and
 returned references

---
 .../internal/adapted_types/adapted_function.py       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index acda53b..42bb308 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -646,7 +646,17 @@ class AdaptedFunction(AdaptedElement):
             if self.is_method() and len(self.cpp_element().parameter_list.parameters) == 0:
                 # overload_cast fails with 0 parameter...
                 parent_scope = self._pydef_str_parent_cpp_scope()
-                replace_tokens.function_pointer = f"[]({parent_scope} & self) {{ return self.{function_name}(); }}"
+                # the return type of a lambda is never a reference, except if it is specified
+                return_type = self.cpp_element().str_full_return_type()
+                return_arrow = f" -> {return_type}" if return_type.endswith("&") else ""
+                if self.cpp_element().is_static():
+                    replace_tokens.function_pointer = (
+                        f"[](){return_arrow} {{ return {parent_scope}::{function_name}(); }}"
+                    )
+                else:
+                    replace_tokens.function_pointer = (
+                        f"[]({parent_scope} & self){return_arrow} {{ return self.{function_name}(); }}"
+                    )
             else:
                 overload_types = self.cpp_element().parameter_list.str_types_only_for_overload()
                 is_const = self.cpp_element().is_const()
-- 
2.43.0


From 6e092d9f9de3aac0d13a16b1aa249b5853335c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 28/85] fix: overloads of a namespace which is opened several
 times

---
 .../adapted_types/adapted_function.py         | 11 ++++++++
 .../adapted_types/stub_overload_dedup.py      |  2 ++
 src/srcmlcpp/cpp_types/blocks/cpp_block.py    | 25 +++++++++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 42bb308..15cdd68 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -8,6 +8,7 @@ from munch import Munch  # type: ignore
 from codemanip import code_utils
 
 from srcmlcpp.cpp_types import (
+    CppBlock,
     CppParameter,
     CppFunctionDecl,
     CppStruct,
@@ -1164,6 +1165,16 @@ class AdaptedFunction(AdaptedElement):
                 has_module_proxy_class = True
         return has_module_proxy_class
 
+    def has_published_overloads_in_other_blocks(self) -> bool:
+        """Is True if the namespace of this function is opened several times, and contains other overloads elsewhere"""
+        parent_block = self.cpp_element().parent
+        if not isinstance(parent_block, CppBlock):
+            return False
+        return any(
+            AdaptedFunction.init_is_function_publishable(self.options, overload)
+            for overload in parent_block.overloads_in_other_blocks(self.cpp_element())
+        )
+
     def stub_python_signature(self) -> str:
         """Return a string that uniquely identifies this function's Python signature.
 
diff --git a/src/litgen/internal/adapted_types/stub_overload_dedup.py b/src/litgen/internal/adapted_types/stub_overload_dedup.py
index 426e37e..17b8c9b 100644
--- a/src/litgen/internal/adapted_types/stub_overload_dedup.py
+++ b/src/litgen/internal/adapted_types/stub_overload_dedup.py
@@ -44,6 +44,8 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
         if isinstance(elem, AdaptedFunction) and elem.is_overloaded and has_content:
             name = elem._stub_function_name_python()
             overload_counts[name] = overload_counts.get(name, 0) + 1
+            if elem.has_published_overloads_in_other_blocks():
+                overload_counts[name] += 1
 
     # Names where only one overload survived: strip @overload
     singleton_overloads = {name for name, count in overload_counts.items() if count <= 1}
diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_block.py b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
index bee8098..db6a659 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_block.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
@@ -149,9 +149,34 @@ class CppBlock(CppElementAndComment):
     def is_function_overloaded(self, function: CppFunctionDecl) -> bool:
         functions_same_name = self.all_functions_with_name(function.function_name)
         assert len(functions_same_name) >= 1
+        functions_same_name = functions_same_name + self.overloads_in_other_blocks(function)
         is_overloaded = len(functions_same_name) >= 2
         return is_overloaded
 
+    def overloads_in_other_blocks(self, function: CppFunctionDecl) -> list[CppFunctionDecl]:
+        """Gathers the overloads of a function in the other blocks of its namespace (which may be opened several times)"""
+        r: list[CppFunctionDecl] = []
+        for block in self._other_blocks_of_namespace():
+            r += block.all_functions_with_name(function.function_name)
+        return r
+
+    def _other_blocks_of_namespace(self) -> list[CppBlock]:
+        from srcmlcpp.cpp_types.cpp_namespace import CppNamespace
+
+        if not hasattr(self, "parent") or not isinstance(self.parent, CppNamespace):
+            return []
+        if not hasattr(self, "_cached_other_blocks_of_namespace"):
+            scope_str = self.parent.cpp_scope_str(include_self=True)
+            self._cached_other_blocks_of_namespace = [
+                namespace.block
+                for namespace in self.root_cpp_unit().all_cpp_elements_recursive(CppNamespace)
+                if isinstance(namespace, CppNamespace)
+                and hasattr(namespace, "_block")
+                and namespace is not self.parent
+                and namespace.cpp_scope_str(include_self=True) == scope_str
+            ]
+        return self._cached_other_blocks_of_namespace
+
     def visit_cpp_breadth_first(self, cpp_visitor_function: CppElementsVisitorFunction, depth: int = 0) -> None:
         """Visits all the cpp children, and run the given function on them.
         Runs the visitor on this block first, then on its children
-- 
2.43.0


From 9005c2d3e828833ab9af057b4991fae64d8937ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 29/85] fix: C++ functions that have the same name in Python
 are overloads in the stub

---
 .../internal/adapted_types/adapted_block.py     | 17 ++++++++++++++---
 .../internal/adapted_types/adapted_function.py  |  6 +++++-
 .../adapted_types/stub_overload_dedup.py        |  9 +++++----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_block.py b/src/litgen/internal/adapted_types/adapted_block.py
index cc9512e..eeec975 100644
--- a/src/litgen/internal/adapted_types/adapted_block.py
+++ b/src/litgen/internal/adapted_types/adapted_block.py
@@ -39,7 +39,7 @@ from litgen.internal.adapted_types.adapted_decl import AdaptedGlobalDecl
 
 
 def group_overloaded_functions(elements: list[Any]) -> list[Any]:
-    """Reorder elements so that overloaded functions (same name) are adjacent.
+    """Reorder elements so that overloaded functions (same name in Python) are adjacent.
 
     mypy requires @overload-decorated functions to be adjacent in .pyi stubs.
     litgen emits functions in C++ source order, which may interleave overloads
@@ -48,13 +48,24 @@ def group_overloaded_functions(elements: list[Any]) -> list[Any]:
     This moves later overloads next to the first occurrence of each name,
     preserving relative order for everything else.
     """
+    python_names: list[str] = [
+        elem._stub_function_name_python() for elem in elements if isinstance(elem, AdaptedFunction)
+    ]
+
+    group_names: dict[str, str] = {}  # the name of the first overload, for each C++ name or Python name
     fn_first_index: dict[str, int] = {}
     result: list[Any] = []
     deferred: dict[str, list[Any]] = {}
 
     for elem in elements:
-        if isinstance(elem, AdaptedFunction) and elem.is_overloaded:
-            name = elem.cpp_element().function_name
+        if isinstance(elem, AdaptedFunction) and python_names.count(elem._stub_function_name_python()) >= 2:
+            elem.is_overloaded_in_python = True
+        if isinstance(elem, AdaptedFunction) and elem.is_overloaded_in_python:
+            cpp_name = elem.cpp_element().function_name
+            python_name = elem._stub_function_name_python()
+            name = group_names.get("cpp " + cpp_name, group_names.get("python " + python_name, cpp_name))
+            group_names["cpp " + cpp_name] = name
+            group_names["python " + python_name] = name
             if name not in fn_first_index:
                 fn_first_index[name] = len(result)
                 result.append(elem)
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 15cdd68..2dbb2ec 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -230,6 +230,8 @@ class AdaptedFunction(AdaptedElement):
     # Other members
     return_value_policy: str = ""
     is_overloaded: bool = False
+    # is_overloaded_in_python is also True if another C++ function has the same name in Python
+    is_overloaded_in_python: bool = False
     is_type_ignore: bool = False
     is_vectorize_impl: bool = False
     has_adapted_template_buffer: bool = False
@@ -274,6 +276,7 @@ class AdaptedFunction(AdaptedElement):
         self._register_function_name_replacement()
 
         self.is_overloaded = is_overloaded
+        self.is_overloaded_in_python = is_overloaded
 
         if self.cpp_element().is_inferred_return_type():
             self.cpp_element().cpp_element_comments.comment_end_of_line += "\n(C++ auto return type)"
@@ -1127,7 +1130,7 @@ class AdaptedFunction(AdaptedElement):
             and self.options.fn_vectorize_prefix == ""
             and self.options.fn_vectorize_suffix == ""
         )
-        needs_overload = self.is_overloaded or vectorize_needs_overload
+        needs_overload = self.is_overloaded_in_python or vectorize_needs_overload
         if needs_overload:
             decorators.append("@overload")
         if (
@@ -1444,6 +1447,7 @@ class AdaptedFunction(AdaptedElement):
             new_function = self._tpl_instantiate_template_for_type(cpp_type)
             if not matching_template_spec.add_suffix_to_function_name:
                 new_function.is_overloaded = True
+                new_function.is_overloaded_in_python = True
             new_functions.append(new_function)
         return new_functions
 
diff --git a/src/litgen/internal/adapted_types/stub_overload_dedup.py b/src/litgen/internal/adapted_types/stub_overload_dedup.py
index 17b8c9b..5414c9a 100644
--- a/src/litgen/internal/adapted_types/stub_overload_dedup.py
+++ b/src/litgen/internal/adapted_types/stub_overload_dedup.py
@@ -25,7 +25,7 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
     emitted_signatures: set[str] = set()
     survivors: list[AdaptedElement] = []
     for elem in elements:
-        if isinstance(elem, AdaptedFunction) and elem.is_overloaded:
+        if isinstance(elem, AdaptedFunction) and elem.is_overloaded_in_python:
             sig = elem.stub_python_signature()
             if sig in emitted_signatures:
                 continue
@@ -41,7 +41,7 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
         generated.append((elem, element_lines))
 
         has_content = any(line.strip() for line in element_lines)
-        if isinstance(elem, AdaptedFunction) and elem.is_overloaded and has_content:
+        if isinstance(elem, AdaptedFunction) and elem.is_overloaded_in_python and has_content:
             name = elem._stub_function_name_python()
             overload_counts[name] = overload_counts.get(name, 0) + 1
             if elem.has_published_overloads_in_other_blocks():
@@ -55,10 +55,11 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
     for elem, element_lines in generated:
         if (
             isinstance(elem, AdaptedFunction)
-            and elem.is_overloaded
+            and elem.is_overloaded_in_python
             and elem._stub_function_name_python() in singleton_overloads
         ):
-            element_lines = [line for line in element_lines if line.strip() != "@overload"]
+            i_overload = [line.strip() for line in element_lines].index("@overload")
+            element_lines = element_lines[:i_overload] + element_lines[i_overload + 1 :]
         result.append((elem, element_lines))
 
     return result
-- 
2.43.0


From 524bb992eae06d769faddfe6201ac2bc94a4be09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 30/85] fix: private and protected base classes are not
 published

---
 src/litgen/internal/adapted_types/adapted_class.py | 8 +++-----
 src/srcmlcpp/cpp_types/classes/cpp_struct.py       | 3 +++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index d67e161..c02e283 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -548,7 +548,7 @@ class AdaptedClass(AdaptedElement):
                 for custom_base in custom_derived:
                     parents.append(custom_base)
             else:
-                for _access_type, base_class in self.cpp_element().base_classes():
+                for base_class in self.cpp_element().public_base_classes():
                     class_python_scope = cpp_to_python.cpp_scope_to_python_scope_str(
                         self.options, base_class.cpp_scope(include_self=True)
                     )
@@ -700,10 +700,8 @@ class AdaptedClass(AdaptedElement):
                 for custom_base in custom_derived:
                     other_template_params_list.append(custom_base)
             elif self.cpp_element().has_base_classes():
-                base_classes = self.cpp_element().base_classes()
-                for access_type, base_class in base_classes:
-                    if access_type == CppAccessType.public or access_type == CppAccessType.protected:
-                        other_template_params_list.append(base_class.cpp_scope_str(include_self=True))
+                for base_class in self.cpp_element().public_base_classes():
+                    other_template_params_list.append(base_class.cpp_scope_str(include_self=True))
 
             if self.cpp_element().has_private_destructor() and options.bind_library == BindLibraryType.pybind11:
                 # nanobind does not support nodelete
diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index bd8f04b..e36a784 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -135,6 +135,9 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
                 r.append((access_type, base_struct))
         return r
 
+    def public_base_classes(self) -> list[CppStruct]:
+        return [base_class for access_type, base_class in self.base_classes() if access_type == CppAccessType.public]
+
     def has_user_defined_default_constructor_zero_param(self) -> bool:
         for method in self.get_methods():
             if method.is_default_constructor_zero_param():
-- 
2.43.0


From 425536215cdb8d2316c6ddd2f27bbbaa3bc7c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 31/85] fix: virtual public base classes

---
 src/srcmlcpp/internal/cpp_types_parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 55cdd94..a993176 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -661,7 +661,8 @@ def parse_super(options: SrcmlcppOptions, element: SrcmlWrapper, parent: CppElem
         if child_tag == "specifier":
             child_text = child.text()
             assert child_text is not None
-            result.specifier = child_text
+            if child_text != "virtual":
+                result.specifier = child_text
         elif child_tag == "name":
             result.superclass_name = _parse_name(child)
         else:
-- 
2.43.0


From 6f8d1e3525aaa670bd5ee5a0323458754fde105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 32/85] fix: a protected destructor can not be called either

---
 src/srcmlcpp/cpp_types/classes/cpp_struct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index e36a784..6caabcc 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -186,12 +186,13 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
         return True
 
     def has_private_destructor(self) -> bool:
+        """Returns True if the destructor can not be called from outside (i.e. it is private or protected)"""
         r = False
         for method in self.get_methods():
             if method.is_destructor():
                 access_type = method.access_type_if_method()
                 assert access_type is not None
-                if access_type == CppAccessType.private:
+                if access_type in (CppAccessType.private, CppAccessType.protected):
                     r = True
         return r
 
-- 
2.43.0


From 2f6ff427998f49203145255de737dfe9e35891bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 33/85] fix: the inline specifier is not part of the python
 type

---
 src/litgen/internal/cpp_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 3c45284..1d0cd8d 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import keyword
+import re
 from dataclasses import dataclass  # noqa
 from typing import Optional
 
@@ -179,8 +180,7 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
         r = specialized_type_python_name
     else:
         r = cpp_type_str
-    r = r.replace("static ", "")
-    r = r.replace("constexpr ", "")
+    r = re.sub(r"\b(static|constexpr|inline)\s+", "", r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
 
-- 
2.43.0


From c425a7fbbd74f7e910b08505d7e61458291bcdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 34/85] fix: members that are references can not be published

---
 src/litgen/internal/adapted_types/adapted_class.py | 7 +++++++
 src/srcmlcpp/scrml_warning_settings.py             | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index c02e283..3e51468 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -138,6 +138,13 @@ class AdaptedClassMember(AdaptedDecl):
                 WarningType.LitgenClassMemberSkipBitfield,
             )
             return False
+        elif cpp_decl.cpp_type.is_reference() and not cpp_decl.cpp_type.is_static():
+            # C++ has no pointer to a member of reference type
+            cpp_decl.emit_warning(
+                f"AdaptedClassMember: Skipped reference member {cpp_decl.decl_name}",
+                WarningType.LitgenClassMemberSkipReference,
+            )
+            return False
         elif cpp_decl.is_c_array_fixed_size_unparsable():
             cpp_decl.emit_warning(
                 """
diff --git a/src/srcmlcpp/scrml_warning_settings.py b/src/srcmlcpp/scrml_warning_settings.py
index 4c37e9e..8b8e4c3 100644
--- a/src/srcmlcpp/scrml_warning_settings.py
+++ b/src/srcmlcpp/scrml_warning_settings.py
@@ -37,6 +37,9 @@ class WarningType(enum.Enum):
     # AdaptedClassMember: Skipped bitfield member
     LitgenClassMemberSkipBitfield = enum.auto()
 
+    # AdaptedClassMember: Skipped reference member
+    LitgenClassMemberSkipReference = enum.auto()
+
     # AdaptedClassMember: Can't parse the size of this array.
     # Hint: use a vector, or extend `options.member_numeric_c_array_types`
     LitgenClassMemberUnparsableSize = enum.auto()
-- 
2.43.0


From c756e8ea08e6d6155128cf2e53421a6ce7377c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 35/85] fix: a move constructor deletes the implicit copy
 constructor

---
 src/litgen/internal/adapted_types/adapted_class.py    | 3 ++-
 src/srcmlcpp/cpp_types/classes/cpp_struct.py          | 3 +++
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 3e51468..c21721e 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -909,7 +909,8 @@ class AdaptedClass(AdaptedElement):
 
         user_defined_copy_constructor = self.cpp_element().get_user_defined_copy_constructor()
         if user_defined_copy_constructor is None:
-            return True
+            # a user defined move constructor deletes the implicit copy constructor
+            return not self.cpp_element().has_user_defined_move_constructor()
         else:
             is_api = self.cpp_element().is_user_defined_copy_constructor_part_of_api()
             return is_api
diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index 6caabcc..ec78d30 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -174,6 +174,9 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
                 return method
         return None
 
+    def has_user_defined_move_constructor(self) -> bool:
+        return any(method.is_move_constructor() for method in self.get_methods())
+
     def is_user_defined_copy_constructor_part_of_api(self) -> bool:
         """If there is a user defined copy constructor, is it public and not deleted?"""
         user_defined_copy_constructor = self.get_user_defined_copy_constructor()
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 674f0eb..aad28d2 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -420,6 +420,12 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
                 nb_params_without_default_value += 1
         return nb_params_without_default_value == 0
 
+    def is_move_constructor(self) -> bool:
+        if not self.is_constructor() or len(self.parameter_list.parameters) != 1:
+            return False
+        param_type = self.parameter_list.parameters[0].decl.cpp_type
+        return param_type.typenames == [self.function_name] and param_type.modifiers == ["&&"]
+
     def is_copy_constructor(self) -> bool:
         if not self.is_constructor():
             return False
-- 
2.43.0


From a7807b7d3077b54379ebffc06c6211c53587d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 36/85] fix: no constructor is generated when the default
 constructor is implicitly deleted

---
 .../internal/adapted_types/adapted_class.py   |  3 ++
 src/srcmlcpp/cpp_types/classes/cpp_struct.py  | 36 +++++++++++++++++++
 .../cpp_types/decls_types/cpp_type.py         |  9 +++++
 3 files changed, 48 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index c21721e..c3939e1 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -595,6 +595,7 @@ class AdaptedClass(AdaptedElement):
         if (
             not self.cpp_element().has_user_defined_constructor()
             and not self.cpp_element().has_deleted_default_constructor()
+            and not self.cpp_element().has_implicitly_deleted_default_constructor()
         ):
             ctor_helper = PythonNamedConstructorHelper(self)
             ctor_code = ctor_helper.stub_code()
@@ -781,6 +782,8 @@ class AdaptedClass(AdaptedElement):
         def make_default_constructor_code() -> str:
             if self.cpp_element().has_deleted_default_constructor():
                 return f"{_i_}// (default constructor explicitly deleted)\n"
+            elif self.cpp_element().has_implicitly_deleted_default_constructor():
+                return f"{_i_}// (default constructor implicitly deleted)\n"
             elif not self.cpp_element().has_user_defined_constructor():
                 python_named_ctor_helper = PythonNamedConstructorHelper(self)
                 return python_named_ctor_helper.pydef_code()
diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index ec78d30..c2544e8 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -168,6 +168,42 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
                 return True
         return False
 
+    def has_implicitly_deleted_default_constructor(self) -> bool:
+        """Returns True if there is no user defined constructor, and if the compiler cannot generate the default one,
+        because a member or a base class cannot be default initialized."""
+        if self.has_user_defined_constructor():
+            return False
+        for _access_type, base_class in self.base_classes():
+            if base_class is not self and not base_class._can_be_default_initialized():
+                return True
+        return any(not self._is_member_default_initialized(member) for member in self.get_members())
+
+    def _can_be_default_initialized(self) -> bool:
+        if self.has_user_defined_constructor():
+            return any(
+                method.is_default_constructor()
+                and "delete" not in method.specifiers
+                and method.method_access_type() != CppAccessType.private
+                for method in self.get_methods()
+            )
+        return not self.has_implicitly_deleted_default_constructor()
+
+    def _is_member_default_initialized(self, member: CppDecl) -> bool:
+        cpp_type = member.cpp_type
+        if cpp_type.is_static() or len(member.initial_value_code) > 0:
+            return True
+        if cpp_type.is_reference():
+            return False
+        if len(cpp_type.modifiers) > 0:
+            return True
+        if cpp_type.is_const() and cpp_type.is_builtin_numeric_type():
+            return False
+        root_cpp_unit = CppUnit.find_root_cpp_unit(self)
+        member_struct = root_cpp_unit.find_struct_or_class(cpp_type.name_without_modifier_specifier(), self.cpp_scope(include_self=True))
+        if member_struct is None or member_struct is self:
+            return True
+        return member_struct._can_be_default_initialized()
+
     def get_user_defined_copy_constructor(self) -> CppFunctionDecl | None:
         for method in self.get_methods():
             if method.is_copy_constructor():
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 6b47e32..0a19d65 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import re
 import copy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
@@ -142,6 +143,14 @@ class CppType(CppElementAndComment):
     def is_raw_pointer(self) -> bool:
         return "*" in self.modifiers
 
+    def is_builtin_numeric_type(self) -> bool:
+        """Returns True for the numeric types of the language, and for the integer types of the C library"""
+        builtin_words = ["bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "wchar_t"]
+        return all(
+            typename in builtin_words or re.fullmatch(r"(std::)?(u?int(8|16|32|64)_t|size_t|ptrdiff_t)", typename)
+            for typename in self.typenames
+        )
+
     def is_void(self) -> bool:
         return self.typenames == ["void"] and len(self.specifiers) == 0 and len(self.modifiers) == 0
 
-- 
2.43.0


From 6b5e5316785f78dab0e6d2c8b266cd60dc2f690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 37/85] fix: C++17 nested namespaces (namespace A::B) are
 nested submodules

---
 src/srcmlcpp/internal/cpp_types_parse.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index a993176..e47c6aa 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -1007,9 +1007,29 @@ def parse_namespace(
             _add_comment_child_before_block(result, child)
         else:
             raise SrcmlcppExceptionDetailed(child, f"unhandled tag {child_tag}")
+    if "::" in result.ns_name:
+        result = _expand_nested_namespace(result, parent)
     return result
 
 
+def _expand_nested_namespace(namespace: CppNamespace, parent: CppElementAndComment) -> CppNamespace:
+    """`namespace A::B { ... }` (C++17) is the same as `namespace A { namespace B { ... } }`"""
+    ns_names = namespace.ns_name.split("::")
+    namespace.ns_name = ns_names[-1].strip()
+    for ns_name in reversed(ns_names[:-1]):
+        if not hasattr(namespace, "_block"):
+            break
+        outer_namespace = CppNamespace(namespace, CppElementComments())
+        outer_namespace.ns_name = ns_name.strip()
+        outer_namespace.parent = parent
+        outer_block = CppBlock(namespace.block)
+        outer_block.parent = outer_namespace
+        outer_block.block_children = [namespace]
+        outer_namespace.block = outer_block
+        namespace = outer_namespace
+    return namespace
+
+
 def parse_enum(options: SrcmlcppOptions, element_c: CppElementAndComment, parent: CppElementAndComment) -> CppEnum:
     """
     https://www.srcml.org/doc/cpp_srcML.html#enum-definition
-- 
2.43.0


From ee96eea77da38045aa4622bcbdb54c1dbe8425d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 38/85] fix: namespaces that differ only by root namespaces are
 the same submodule

---
 .../internal/context/namespaces_code_tree.py    | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/litgen/internal/context/namespaces_code_tree.py b/src/litgen/internal/context/namespaces_code_tree.py
index 5c41679..748f941 100644
--- a/src/litgen/internal/context/namespaces_code_tree.py
+++ b/src/litgen/internal/context/namespaces_code_tree.py
@@ -87,22 +87,19 @@ class NamespacesCodeTree:
             sub_code_tree._store_code_in_tree(namespace_names[1:], code)
 
     def store_code(self, qualified_namespace_name: CppQualifiedNamespaceName, code: str) -> None:
-        namespaces_names = qualified_namespace_name.split("::")
+        self._store_code_in_tree(self._submodule_names(qualified_namespace_name), code)
 
-        def shall_use_this_namespace(namespace_name: str) -> bool:
-            is_root_namespace = namespace_name in self._options.namespaces_root
-            return not is_root_namespace
-
-        namespaces_names = list(filter(shall_use_this_namespace, namespaces_names))
-
-        self._store_code_in_tree(namespaces_names, code)
+    def _submodule_names(self, qualified_namespace_name: CppQualifiedNamespaceName) -> list[CppNamespaceName]:
+        """The namespaces that correspond to submodules: two namespaces correspond to the same submodule
+        if they differ only by root namespaces"""
+        return [ns for ns in qualified_namespace_name.split("::") if ns not in self._options.namespaces_root]
 
     def was_namespace_created(self, qualified_namespace_name: CppQualifiedNamespaceName) -> bool:
-        r = qualified_namespace_name in self._created_namespaces
+        r = "::".join(self._submodule_names(qualified_namespace_name)) in self._created_namespaces
         return r
 
     def register_namespace_creation(self, qualified_namespace_name: CppQualifiedNamespaceName) -> None:
-        self._created_namespaces.add(qualified_namespace_name)
+        self._created_namespaces.add("::".join(self._submodule_names(qualified_namespace_name)))
 
     def qualified_namespaces(self) -> set[CppQualifiedNamespaceName]:
         return self._created_namespaces
-- 
2.43.0


From a8a78cabc7b28387dd7825cdf82206c714ea8ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 39/85] fix: custom bindings are emitted once for each
 generator

---
 .../adapted_types/adapted_namespace.py        |  8 +++----
 .../internal/adapted_types/adapted_unit.py    |  8 ++-----
 src/litgen/internal/context/litgen_context.py | 21 +++++++++++++++++++
 src/litgen/internal/custom_bindings.py        | 20 ------------------
 4 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index c38d7df..9b9c62f 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -95,8 +95,8 @@ class AdaptedNamespace(AdaptedElement):
 
         if self.flag_shall_create_namespace_as_module():
             # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=False
+            custom_code = self.lg_context.module_custom_code(
+                self._qualified_namespace_name(), self.pydef_submodule_cpp_var(), is_pydef=False
             )
             if custom_code is not None:
                 lines += custom_code.splitlines()
@@ -147,8 +147,8 @@ class AdaptedNamespace(AdaptedElement):
 
         if self.flag_shall_create_namespace_as_module():
             # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=True
+            custom_code = self.lg_context.module_custom_code(
+                self._qualified_namespace_name(), self.pydef_submodule_cpp_var(), is_pydef=True
             )
             if custom_code is not None:
                 lines += custom_code.splitlines()
diff --git a/src/litgen/internal/adapted_types/adapted_unit.py b/src/litgen/internal/adapted_types/adapted_unit.py
index 0f6f258..b367c77 100644
--- a/src/litgen/internal/adapted_types/adapted_unit.py
+++ b/src/litgen/internal/adapted_types/adapted_unit.py
@@ -34,9 +34,7 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=False, pydef_main_module_var_name="m"
-        )
+        custom_code = self.lg_context.module_custom_code("", "m", is_pydef=False)
         if custom_code is not None:
             r += custom_code
 
@@ -51,9 +49,7 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=True, pydef_main_module_var_name="m"
-        )
+        custom_code = self.lg_context.module_custom_code("", "m", is_pydef=True)
         if custom_code is not None:
             r += custom_code
 
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 430a031..5e7f1b6 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -60,6 +60,11 @@ class LitgenContext:
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
+    # The modules and submodules whose custom bindings were already emitted (with "stub" or "pydef").
+    # They are emitted only once per generator: a generator may process multiple header files (via repeated
+    # process_cpp_file calls), and a namespace may be opened several times.
+    _emitted_custom_bindings: set[tuple[CppQualifiedNamespaceName, PydefOrStub]]
+
     # cf https://pybind11.readthedocs.io/en/stable/advanced/classes.html#binding-protected-member-functions
     protected_methods_glue_code: str = ""
     # cf https://pybind11.readthedocs.io/en/stable/advanced/classes.html#overriding-virtual-functions-in-python
@@ -76,6 +81,22 @@ class LitgenContext:
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
         self._scoped_replacements = {}
         self.scope_members = {}
+        self._emitted_custom_bindings = set()
+
+    def module_custom_code(
+        self, qualified_namespace: CppQualifiedNamespaceName, module_cpp_var: str, is_pydef: bool
+    ) -> str | None:
+        """The custom bindings of a submodule (or of the main module, if qualified_namespace is empty)"""
+        emitted_key = (qualified_namespace, PydefOrStub.Pydef if is_pydef else PydefOrStub.Stub)
+        if emitted_key in self._emitted_custom_bindings:
+            return None
+        self._emitted_custom_bindings.add(emitted_key)
+
+        custom_bindings = self.options.custom_bindings
+        if len(qualified_namespace) == 0:
+            return custom_bindings._pub_make_main_module_custom_code(module_cpp_var, is_pydef)
+        else:
+            return custom_bindings._pub_make_submodule_custom_code(qualified_namespace, module_cpp_var, is_pydef)
 
     def clear_namespaces_code_tree(self) -> None:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
diff --git a/src/litgen/internal/custom_bindings.py b/src/litgen/internal/custom_bindings.py
index 68ae496..26f68c5 100644
--- a/src/litgen/internal/custom_bindings.py
+++ b/src/litgen/internal/custom_bindings.py
@@ -174,10 +174,6 @@ class CustomBindings:
     def __init__(self) -> None:
         self._custom_binding_pydefs = {}
         self._custom_binding_stubs = {}
-        # Track whether main-module custom bindings have been emitted,
-        # to avoid duplicates when a single generator processes multiple header files.
-        self._main_module_emitted_pydef = False
-        self._main_module_emitted_stub = False
 
     def _get_custom_bindings_ref(self, is_pydef: bool) -> Dict[CppScope, List[str]]:
         return self._custom_binding_pydefs if is_pydef else self._custom_binding_stubs
@@ -239,23 +235,7 @@ class CustomBindings:
         return result
 
     def _pub_make_main_module_custom_code(self, pydef_main_module_var_name: str, is_pydef: bool) -> str | None:
-        # Emit only once per generator lifetime (a single generator may
-        # process multiple header files via repeated process_cpp_file calls).
-        if is_pydef:
-            if self._main_module_emitted_pydef:
-                return None
-        else:
-            if self._main_module_emitted_stub:
-                return None
-
         replacements = [_StringReplacement("LG_MODULE", pydef_main_module_var_name)]
         qual_class_scope = CppScope.from_string("")
         result = self._make_custom_code(qual_class_scope, is_pydef=is_pydef, replacements=replacements)
-
-        if result is not None:
-            if is_pydef:
-                self._main_module_emitted_pydef = True
-            else:
-                self._main_module_emitted_stub = True
-
         return result
-- 
2.43.0


From dca60fa679e25df8c41644e54e5e867a555b15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 40/85] fix: a function whose default value is a lambda does
 not stop the generation

---
 src/srcmlcpp/internal/fix_brace_init_default_value.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srcmlcpp/internal/fix_brace_init_default_value.py b/src/srcmlcpp/internal/fix_brace_init_default_value.py
index 873eeed..72e60b3 100644
--- a/src/srcmlcpp/internal/fix_brace_init_default_value.py
+++ b/src/srcmlcpp/internal/fix_brace_init_default_value.py
@@ -117,6 +117,9 @@ def _rewrite_decl_if_suspicious_fn_decl(decl_stmt: CppDeclStatement) -> Optional
             names = expr.wrapped_children_with_tag("name")
             operators = expr.wrapped_children_with_tag("operator")
             block = expr.wrapped_child_with_tag("block")
+            if len(names) == 2 and len(operators) > 0 and expr.wrapped_child_with_tag("lambda") is not None:
+                # srcML cannot parse a function with a parameter whose default value is a lambda
+                decl_stmt.raise_exception("A lambda cannot be used as a default value")
             if len(names) == 2 and len(operators) > 0 and block is not None:
                 has_one_equal_operator = False
                 for operator in operators:
-- 
2.43.0


From 49ef1c79718e4aff3cb9d191d2e018a0493e8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 41/85] fix: the scope of the params of functions with brace
 default values

---
 src/srcmlcpp/internal/cpp_types_parse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index e47c6aa..5085532 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -869,8 +869,7 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
                     options, cpp_decl_stmt
                 )
                 if fixed_function is not None:
-                    fixed_function.parent = cpp_decl_stmt.parent
-                    fixed_function._clear_scope_cache()
+                    fixed_function.set_new_parent(cpp_decl_stmt.parent)
                     block_children.append(fixed_function)
                 else:
                     block_children.append(cpp_decl_stmt)
-- 
2.43.0


From 2dc5902acf73c71a508d097432d7fb40592e6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 42/85] fix: template packs, values and template templates are
 not instantiated with a type

---
 src/litgen/internal/adapted_types/adapted_function.py  | 3 +--
 src/srcmlcpp/cpp_types/template/cpp_i_template_host.py | 7 +++++++
 src/srcmlcpp/internal/cpp_types_parse.py               | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 2dbb2ec..6b28c31 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1398,8 +1398,7 @@ class AdaptedFunction(AdaptedElement):
 
     def _tpl_is_one_param_template(self) -> bool:
         assert self._tpl_is_template_non_specialized()  # call this after _is_template()!
-        nb_template_parameters = len(self.cpp_element().template.parameter_list.parameters)
-        is_supported = nb_template_parameters == 1
+        is_supported = self.cpp_element().is_one_type_template()
         return is_supported
 
     def _tpl_is_template_non_specialized(self) -> bool:
diff --git a/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py b/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
index c9dfc04..09cab7e 100644
--- a/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
+++ b/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
@@ -46,6 +46,13 @@ class CppITemplateHost:
         nb_inst = len(self.specialized_template_params)
         return nb_inst == nb_params
 
+    def is_one_type_template(self) -> bool:
+        """Returns True if this is a template on one type (and not on a value, a parameter pack or a template)"""
+        if not self.is_template():
+            return False
+        parameters = self.template.parameter_list.parameters
+        return len(parameters) == 1 and parameters[0].template_type in ["typename", "class"]
+
     def str_template_specialization(self) -> str:
         """Returns <int, double> if there is a specialization on (int, double). Return "" if no specialization"""
         if len(self.specialized_template_params) > 0:
diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 5085532..a70596a 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -399,6 +399,10 @@ def parse_parameter(options: SrcmlcppOptions, element: SrcmlWrapper, parent: Cpp
             assert child.has_xml_name()
             template_type = child.extract_name_from_xml()
             assert template_type is not None
+            if child.wrapped_child_with_tag("template") is not None:
+                template_type = child.str_code_verbatim().strip()  # e.g. `template<template<class> class T> void f()`
+            elif child.wrapped_child_with_tag("modifier") is not None:
+                template_type += "..."  # e.g. `template<typename... T> void f()`
             result.template_type = template_type
         elif child_tag == "name":
             child_text = child.text()
-- 
2.43.0


From a76e681798623b32dcd352dc559d6aa1e4bb95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 43/85] fix: template specializations: types, default values,
 scopes, inner types, injected class names, synonyms

---
 .../internal/adapted_types/adapted_class.py   |  39 +++----
 .../internal/adapted_types/adapted_decl.py    |  12 +-
 .../adapted_types/adapted_function.py         |  26 ++++-
 src/litgen/internal/cpp_to_python.py          |  54 +++++----
 src/litgen/internal/template_options.py       | 109 +++++++++++++-----
 src/srcmlcpp/cpp_types/base/cpp_element.py    |   2 +-
 src/srcmlcpp/cpp_types/blocks/cpp_block.py    |   2 +-
 src/srcmlcpp/cpp_types/classes/cpp_struct.py  |   5 +-
 .../cpp_types/decls_types/cpp_decl.py         |  13 ++-
 .../cpp_types/decls_types/cpp_type.py         |  27 +----
 .../cpp_types/functions/cpp_function_decl.py  |   8 +-
 src/srcmlcpp/cpp_types/scope/cpp_scope.py     |  11 ++
 .../cpp_types/scope/cpp_scope_identifiers.py  |  17 ++-
 .../cpp_types/scope/cpp_scope_process.py      |   6 +-
 .../template/cpp_template_specialization.py   |  24 ++++
 15 files changed, 240 insertions(+), 115 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index c3939e1..f3f3dad 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -50,6 +50,7 @@ from litgen.internal.context.litgen_context import LitgenContext
 class _AdaptedInstantiatedTemplateClasses:
     adapted_classes: list[AdaptedClass]
     stubs_synonyms_code: list[str]
+    pydef_synonyms_code: list[str]
 
 
 @dataclass
@@ -669,6 +670,7 @@ class AdaptedClass(AdaptedElement):
                 r = []
                 for template_instantiation in template_instantiations.adapted_classes:
                     r += template_instantiation.pydef_lines()
+                r += template_instantiations.pydef_synonyms_code
                 return r
 
         self._prot_store_glue()
@@ -984,10 +986,15 @@ class AdaptedClass(AdaptedElement):
 
     def _tpl_is_one_param_template(self) -> bool:
         assert self.cpp_element().is_template_partially_specialized()
-        nb_template_parameters = len(self.cpp_element().template.parameter_list.parameters)
-        is_supported = nb_template_parameters == 1
+        is_supported = self.cpp_element().is_one_type_template()
         return is_supported
 
+    def _tpl_class_name_python(self, instantiated_cpp_type_str: str) -> str:
+        """The name of the python class for a given instantiation of this template class"""
+        tpl_class_name_python = cpp_to_python._class_name_to_python(self.options, self.cpp_element().class_name)
+        r = template_options.apply_template_naming(tpl_class_name_python, instantiated_cpp_type_str)
+        return cpp_to_python.type_to_python(self.lg_context, r)
+
     def _tpl_instantiate_template_for_type(self, cpp_type: CppType) -> AdaptedClass:
         assert self.cpp_element().is_template_partially_specialized()
         assert self._tpl_is_one_param_template()
@@ -996,15 +1003,7 @@ class AdaptedClass(AdaptedElement):
         assert new_cpp_class is not None
         new_adapted_class = AdaptedClass(self.lg_context, new_cpp_class)
 
-        from litgen.internal import template_options
-
-        tpl_class_name_python = cpp_to_python._class_name_to_python(self.options, self.cpp_element().class_name)
-        instantiated_cpp_type_str = cpp_type.str_code()
-        new_class_name_python = template_options._apply_template_naming(
-            tpl_class_name_python, instantiated_cpp_type_str
-        )
-        new_class_name_python = cpp_to_python.type_to_python(self.lg_context, new_class_name_python)
-
+        new_class_name_python = self._tpl_class_name_python(cpp_type.str_code())
         new_adapted_class.template_specialization = AdaptedClass.TemplateSpecialization(new_class_name_python, cpp_type)
 
         return new_adapted_class
@@ -1022,14 +1021,14 @@ class AdaptedClass(AdaptedElement):
                 f"Ignoring template class {self.cpp_element().class_name} . You might need to set LitgenOptions.class_template_options",
                 WarningType.LitgenTemplateClassIgnore,
             )
-            return _AdaptedInstantiatedTemplateClasses([], [])
+            return _AdaptedInstantiatedTemplateClasses([], [], [])
 
         if not self._tpl_is_one_param_template() and len(matching_template_spec.cpp_types_list) > 0:
             self.cpp_element().emit_warning(
                 f"Template class {self.cpp_element().class_name} with more than one parameter is not supported",
                 WarningType.LitgenTemplateClassMultipleIgnore,
             )
-            return _AdaptedInstantiatedTemplateClasses([], [])
+            return _AdaptedInstantiatedTemplateClasses([], [], [])
 
         new_classes: list[AdaptedClass] = []
         for cpp_type in matching_template_spec.cpp_types_list:
@@ -1037,15 +1036,15 @@ class AdaptedClass(AdaptedElement):
             new_classes.append(new_class)
 
         stubs_synonym_code = []
+        pydef_synonyms_code = []
+        parent_var = cpp_to_python.cpp_scope_to_pybind_parent_var_name(self.options, self.cpp_element())
         for cpp_synonym in matching_template_spec.cpp_types_synonyms:
-            tpl_class_name_python = cpp_to_python._class_name_to_python(self.options, self.cpp_element().class_name)
-            syn_python = cpp_to_python._class_name_to_python(self.options, cpp_synonym.synonym_name)
-            target_python = cpp_to_python._class_name_to_python(self.options, cpp_synonym.synonym_target)
-            tpl_syn_python = template_options._apply_template_naming(tpl_class_name_python, syn_python)
-            tpl_target_python = template_options._apply_template_naming(tpl_class_name_python, target_python)
+            tpl_syn_python = self._tpl_class_name_python(cpp_synonym.synonym_name)
+            tpl_target_python = self._tpl_class_name_python(cpp_synonym.synonym_target)
             stubs_synonym_code.append(f"{tpl_syn_python} = {tpl_target_python}")
+            pydef_synonyms_code.append(f'{parent_var}.attr("{tpl_syn_python}") = {parent_var}.attr("{tpl_target_python}");')
 
-        return _AdaptedInstantiatedTemplateClasses(new_classes, stubs_synonym_code)
+        return _AdaptedInstantiatedTemplateClasses(new_classes, stubs_synonym_code, pydef_synonyms_code)
 
     #  ============================================================================================
     #
@@ -1343,7 +1342,7 @@ class PythonNamedConstructorHelper:
                 }};
             """
 
-            class_scope = self.adapted_class.cpp_element().cpp_scope()
+            class_scope = self.adapted_class.cpp_element().cpp_scope().without_template_specialization()
             for scope_part in reversed(class_scope.scope_parts):
                 if scope_part.scope_type == CppScopeType.Namespace:
                     str_cpp_code = "namespace " + scope_part.scope_name + " {\n" + str_cpp_code + "\n}\n"
diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index 3b7461f..60d835d 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -37,15 +37,23 @@ class AdaptedDecl(AdaptedElement):
 
     def decl_value_python(self) -> str:
         decl_value_cpp = self.cpp_element().initial_value_code.strip()
+        if len(self.options.class_template_options.specs) > 0:
+            decl_value_cpp = self.cpp_element().with_qualified_types().initial_value_code.strip()
         if decl_value_cpp.startswith("{") and decl_value_cpp.endswith("}"):
             # special case for brace init default value
-            decl_value_cpp = self.cpp_element().cpp_type.typenames[0] + "(" + decl_value_cpp[1:-1] + ")"
+            cpp_type = self.options.class_template_options.with_specialized_names(
+                self.cpp_element().cpp_type, self.options.type_replacements
+            )
+            decl_value_cpp = cpp_type.typenames[0] + "(" + decl_value_cpp[1:-1] + ")"
         cpp_scope = self.cpp_element().cpp_scope(include_self=False)
         decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp, cpp_scope)
         return decl_value_python
 
     def decl_type_python(self) -> str:
-        decl_type_cpp = self.cpp_element().cpp_type.str_code()
+        cpp_type = self.options.class_template_options.with_specialized_names(
+            self.cpp_element().cpp_type, self.options.type_replacements
+        )
+        decl_type_cpp = cpp_type.str_code()
         decl_type_python = cpp_to_python.type_to_python(self.lg_context, decl_type_cpp)
         return decl_type_python
 
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 6b28c31..9ef15f1 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1255,6 +1255,26 @@ class AdaptedFunction(AdaptedElement):
         else:
             return python_type
 
+    def _stub_cpp_function_with_specialized_names(self) -> CppFunctionDecl:
+        """Replaces the bound template types by the name of their python class, e.g. Ns::Foo<int> => Ns::Foo_int
+        (they cannot be recognized once their arguments were made terse)"""
+        options = self.options.class_template_options
+        if len(options.specs) == 0:
+            return self.cpp_adapted_function
+        r = copy.deepcopy(self.cpp_adapted_function)
+        r._clear_scope_cache()
+        if hasattr(r, "return_type"):
+            r.return_type = options.with_specialized_names(r.return_type, self.options.type_replacements)
+        for param in r.parameter_list.parameters:
+            decl = param.decl
+            decl._clear_scope_cache()
+            decl.cpp_type = options.with_specialized_names(decl.cpp_type, self.options.type_replacements)
+            decl.initial_value_code = options.specialize_types_in_value(
+                decl.initial_value_code, self.options.type_replacements
+            )
+        r.fill_children_parents()
+        return r
+
     def _stub_return_type_python(self) -> str:
         if self.cpp_element().is_inferred_return_type():
             return "Any"
@@ -1263,7 +1283,7 @@ class AdaptedFunction(AdaptedElement):
         elif self.cpp_element().is_operator() and self.cpp_element().operator_name() == "bool":
             return "bool"
         else:
-            cpp_adapted_function_terse = self.cpp_adapted_function.with_terse_types()
+            cpp_adapted_function_terse = self._stub_cpp_function_with_specialized_names().with_terse_types()
             return_type_cpp = cpp_adapted_function_terse.str_full_return_type()
             return_type_python = cpp_to_python.type_to_python(self.lg_context, return_type_cpp)
             return_type_python = self._add_class_hierarchy_to_python_type__fixme(return_type_python)
@@ -1276,7 +1296,9 @@ class AdaptedFunction(AdaptedElement):
 
     def _stub_params_list_signature(self) -> list[str]:
         current_scope = self.cpp_element().cpp_scope(include_self=False)
-        cpp_adapted_function_terse = self.cpp_adapted_function.with_terse_types(current_scope=current_scope)
+        cpp_adapted_function_terse = self._stub_cpp_function_with_specialized_names().with_terse_types(
+            current_scope=current_scope
+        )
         cpp_parameters = cpp_adapted_function_terse.parameter_list.parameters
 
         r = []
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 1d0cd8d..d902f0a 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -9,9 +9,9 @@ from codemanip.code_replacements import RegexReplacementList
 
 from srcmlcpp.cpp_types import CppDecl, CppElement, CppElementAndComment, CppEnum, CppParameter, CppComment
 from srcmlcpp.cpp_types.scope.cpp_scope import CppScope, CppScopePart, CppScopeType
-from srcmlcpp.cpp_types.template.cpp_i_template_host import CppITemplateHost
 
 from litgen import LitgenOptions
+from litgen.internal.template_options import apply_template_naming
 from litgen.internal import LitgenContext
 
 """
@@ -173,13 +173,7 @@ def _namespaces_to_python(lg_context: LitgenContext, python_str: str) -> str:
 
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     options = lg_context.options
-    specialized_type_python_name = options.class_template_options.specialized_type_python_name_str(
-        cpp_type_str, options.type_replacements
-    )
-    if specialized_type_python_name is not None:
-        r = specialized_type_python_name
-    else:
-        r = cpp_type_str
+    r = options.class_template_options.specialize_types_in_code(cpp_type_str, options.type_replacements)
     r = re.sub(r"\b(static|constexpr|inline)\s+", "", r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
@@ -316,6 +310,7 @@ def var_value_to_python(
 
     options = lg_context.options
     r, protected_parts = _protect_value_parts(default_value_cpp)
+    r = options.class_template_options.specialize_types_in_value(r, options.type_replacements)
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
@@ -333,13 +328,14 @@ def var_value_to_python(
     r = _namespaces_to_python(lg_context, r)
     r = _restore_value_parts(r, protected_parts)
 
-    # If this default value uses a bound template type, try to translate it
-    specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
-        default_value_cpp, lg_context.options.type_replacements
-    )
-    if specialized_type_python_default_value is not None:
-        r = specialized_type_python_default_value
+    return r
 
+
+def _scope_class_name_to_python(options: LitgenOptions, class_name: str) -> str:
+    template_name, separator, template_params = class_name.partition("<")
+    r = _class_name_to_python(options, template_name)
+    if len(separator) > 0:
+        r = options.type_replacements.apply(apply_template_naming(r, template_params[:-1]))
     return r
 
 
@@ -351,7 +347,7 @@ def cpp_scope_to_python_scope_str(options: LitgenOptions, cpp_scope: CppScope) -
             if scope_part.scope_name not in options.namespaces_root:
                 python_names.append(namespace_name_to_python(options, scope_part.scope_name))
         else:
-            python_names.append(_class_name_to_python(options, scope_part.scope_name))
+            python_names.append(_scope_class_name_to_python(options, scope_part.scope_name))
     return ".".join(python_names)
 
 
@@ -735,10 +731,24 @@ def _scope_part_name(scope_part: CppScopePart) -> str:
         r += "Ns"
     elif scope_part.scope_type == CppScopeType.Enum:
         r += "Enum"
-    r += scope_part.scope_name
+    class_name, separator, template_params = scope_part.scope_name.partition("<")
+    r += class_name
+    if len(separator) > 0:
+        r += "_" + _template_params_to_var_name(template_params)
     return r
 
 
+def _template_params_to_var_name(template_params: str) -> str:
+    r = (
+        template_params.replace(" *", "_ptr")
+        .replace("*", "_ptr")
+        .replace(" ", "_")
+        .replace("std::", "")
+        .replace("::", "_")
+    )
+    return re.sub(r"\W+", "_", r).strip("_")
+
+
 def cpp_scope_to_pybind_scope(options: LitgenOptions, cpp_element: CppElement, include_self: bool) -> CppScope:
     """Remove namespaces considered as root namespace in the options
     (it requires to add a using namespace in the pybind_xxx.cpp file, but this is ok)
@@ -777,18 +787,6 @@ def cpp_scope_to_pybind_var_name(options: LitgenOptions, cpp_element: CppElement
     scope_parts_strs = list(map(_scope_part_name, cpp_scope.scope_parts))
     if len(scope_parts_strs) > 0:
         r = "py" + "_".join(scope_parts_strs)
-        if isinstance(cpp_element, CppITemplateHost):
-            if len(cpp_element.specialized_template_params) > 0:
-                instantiated_template_params_str = [str(param) for param in cpp_element.specialized_template_params]
-                instantiated_template_params_str = [
-                    param.replace(" *", "_ptr")
-                    .replace("*", "_ptr")
-                    .replace(" ", "_")
-                    .replace("std::", "")
-                    .replace("::", "_")
-                    for param in instantiated_template_params_str
-                ]
-                r += "_" + "_".join(instantiated_template_params_str)
     else:
         r = "m"
     return r
diff --git a/src/litgen/internal/template_options.py b/src/litgen/internal/template_options.py
index fcc726b..5d26668 100644
--- a/src/litgen/internal/template_options.py
+++ b/src/litgen/internal/template_options.py
@@ -6,6 +6,8 @@ from codemanip import code_utils
 from codemanip.code_replacements import RegexReplacementList
 from codemanip.code_utils import RegexOrMatcher
 
+import copy
+import re
 from dataclasses import dataclass
 
 
@@ -15,7 +17,7 @@ def _cpp_types_list_str_to_cpp_types(cpp_types_list_str: list[str]) -> list[CppT
     return cpp_types_list
 
 
-def _apply_template_naming(tpl_class_or_function_name: str, instantiated_cpp_type_str: str) -> str:
+def apply_template_naming(tpl_class_or_function_name: str, instantiated_cpp_type_str: str) -> str:
     instantiated_cpp_type_str = (
         instantiated_cpp_type_str.replace("std::", "")
         .replace("::", "_")
@@ -27,6 +29,7 @@ def _apply_template_naming(tpl_class_or_function_name: str, instantiated_cpp_typ
         .replace("*", "_ptr")
         .replace(" ", "_")
     )
+    instantiated_cpp_type_str = re.sub(r"\W+", "_", instantiated_cpp_type_str).strip("_")
     r = tpl_class_or_function_name + "_" + instantiated_cpp_type_str
     return r
 
@@ -57,8 +60,11 @@ class _TemplateSpecializationSpec:
     cpp_types_synonyms: list[CppTypeSynonym]
 
     def matches_template_name(self, template_name: str) -> bool:
-        r = code_utils.does_match_regex_or_matcher(self.name_regex, template_name)
-        return r
+        """template_name may be qualified, e.g. "Ns::MyData" """
+        return any(
+            code_utils.does_match_regex_or_matcher(self.name_regex, name)
+            for name in [template_name, template_name.split("::")[-1]]
+        )
 
     def handles_type_instantiation(self, cpp_type: CppType) -> bool:
         r = False
@@ -130,7 +136,7 @@ class _TemplateSpecializationSpec:
         template_instantiated_unique_type = cpp_type.template_instantiated_unique_type()
         assert template_instantiated_unique_type is not None
         template_instantiated_unique_type_str = template_instantiated_unique_type.str_code()
-        name = _apply_template_naming(cpp_tpl_name, template_instantiated_unique_type_str)
+        name = apply_template_naming(cpp_tpl_name, template_instantiated_unique_type_str)
         name = type_replacements.apply(name)
         return name
 
@@ -228,7 +234,7 @@ class TemplateFunctionsOptions(TemplateSpecList):
             matches_type = s.handles_type_instantiation(cpp_type) or s.handles_type_synonym(cpp_type)
             if matches_name and matches_type:
                 if s.add_suffix_to_function_name:
-                    r = _apply_template_naming(function_name, cpp_type.str_code())
+                    r = apply_template_naming(function_name, cpp_type.str_code())
                     return r
                 else:
                     return function_name
@@ -277,44 +283,85 @@ class TemplateClassOptions(TemplateSpecList):
             add_suffix_to_function_name=False,
         )
 
-    def specialized_type_python_default_value(
-        self, cpp_default_value_str: str, type_replacements: RegexReplacementList
-    ) -> str | None:
-        if "<" not in cpp_default_value_str:
-            return None
-        has_paren = "(" in cpp_default_value_str and ")" in cpp_default_value_str
-        has_accolades = "{" in cpp_default_value_str and "}" in cpp_default_value_str
-        if not has_paren and not has_accolades:
-            return None
-
-        if has_accolades:
-            index_paren = cpp_default_value_str.index("{")
-        else:
-            index_paren = cpp_default_value_str.index("(")
-
-        cpp_default_value_type_supposed = cpp_default_value_str[0:index_paren]
-        cpp_default_value_params = cpp_default_value_str[index_paren:]
-        if has_accolades:
-            cpp_default_value_params = cpp_default_value_params.replace("{", "(").replace("}", ")")
+    def shall_exclude_type(self, cpp_type: CppType) -> bool:
+        # The specializations might be requested with a type whose name is qualified
+        if len(self.specs) > 0 and cpp_type.is_template():
+            cpp_type_qualified = cpp_type.with_qualified_types()
+            if self.shall_specialize_type(cpp_type_qualified) or self.shall_synonymize_type(cpp_type_qualified):
+                return False
+        return super().shall_exclude_type(cpp_type)
+
+    def with_specialized_names(self, cpp_type: CppType, type_replacements: RegexReplacementList) -> CppType:
+        """Returns a possibly new type, where the bound template types are replaced by the (qualified) name
+        of their python class. This type can only be used in order to emit python code."""
+        if len(self.specs) == 0:
+            return cpp_type
+        cpp_type_qualified = cpp_type.with_qualified_types()
+        for candidate in [cpp_type, cpp_type_qualified]:
+            code = " ".join(candidate.typenames)
+            new_code = self.specialize_types_in_code(code, type_replacements)
+            if new_code != code:
+                r = copy.deepcopy(cpp_type)
+                r.typenames = new_code.split(" ")
+                return r
+        return cpp_type
+
+    def specialize_types_in_code(self, cpp_code: str, type_replacements: RegexReplacementList) -> str:
+        """Replaces the bound template types inside a C++ code (a type or a value) by their python name, e.g.
+        std::vector<MyData<int>> => std::vector<MyData_int>
+        (the synonyms are only replaced when they are not the argument of another type)
+        """
 
-        specialized_type_python_name_str = self.specialized_type_python_name_str(
-            cpp_default_value_type_supposed, type_replacements
-        )
-        if specialized_type_python_name_str is None:
+        def closing_position(position: int) -> int | None:
+            depth = 1
+            while position < len(cpp_code):
+                depth += {"<": 1, ">": -1}.get(cpp_code[position], 0)
+                if depth == 0:
+                    return position
+                position += 1
             return None
-        r = specialized_type_python_name_str + cpp_default_value_params
+
+        r = ""
+        i = 0
+        for match in re.finditer(r"[\w:]+\s*<", cpp_code):
+            if match.start() < i:  # inside a type that was already replaced
+                continue
+            end = closing_position(match.end())
+            if end is None:
+                continue
+            is_template_argument = "<" in cpp_code[: match.start()]
+            python_name = self.specialized_type_python_name_str(
+                cpp_code[match.start() : end + 1], type_replacements, include_synonyms=not is_template_argument
+            )
+            if python_name is not None:
+                r += cpp_code[i : match.start()] + python_name
+                i = end + 1
+        return r + cpp_code[i:]
+
+    def specialize_types_in_value(self, cpp_value: str, type_replacements: RegexReplacementList) -> str:
+        """Replaces the bound template types inside a C++ value by their python name, e.g.
+        MyData<int>{1} => MyData_int(1)
+        """
+        r = self.specialize_types_in_code(cpp_value, type_replacements)
+        if r != cpp_value:
+            match = re.fullmatch(r"([\w:]+\s*){(.*)}", r, re.DOTALL)
+            if match is not None:
+                r = f"{match.group(1)}({match.group(2)})"
         return r
 
     def specialized_type_python_name_str(
-        self, cpp_type_str: str, type_replacements: RegexReplacementList
+        self, cpp_type_str: str, type_replacements: RegexReplacementList, include_synonyms: bool = True
     ) -> str | None:
-        if "<" not in cpp_type_str:
+        template_name, separator, _ = cpp_type_str.partition("<")
+        if len(separator) == 0 or not any(s.matches_template_name(template_name.strip()) for s in self.specs):
             return None
         options = srcmlcpp.SrcmlcppOptions()
         try:
             cpp_type2 = srcmlcpp.code_to_cpp_type(options, cpp_type_str)
         except srcmlcpp.SrcmlcppException:
             return None
+        if not include_synonyms and not self.shall_specialize_type(cpp_type2):
+            return None
         return self.specialized_type_python_name(cpp_type2, type_replacements)
 
     def specialized_type_python_name(self, cpp_type: CppType, type_replacements: RegexReplacementList) -> str | None:
diff --git a/src/srcmlcpp/cpp_types/base/cpp_element.py b/src/srcmlcpp/cpp_types/base/cpp_element.py
index 377bbe1..a908855 100644
--- a/src/srcmlcpp/cpp_types/base/cpp_element.py
+++ b/src/srcmlcpp/cpp_types/base/cpp_element.py
@@ -100,7 +100,7 @@ class CppElement(SrcmlWrapper):
         from srcmlcpp.cpp_types.cpp_enum import CppEnum
 
         if isinstance(self, CppStruct):  # this also tests for CppClass
-            return CppScopePart(CppScopeType.ClassOrStruct, self.class_name)
+            return CppScopePart(CppScopeType.ClassOrStruct, self.class_name_with_specialization())
         elif isinstance(self, CppNamespace):
             return CppScopePart(CppScopeType.Namespace, self.ns_name)
         elif isinstance(self, CppEnum):
diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_block.py b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
index db6a659..212940a 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_block.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
@@ -111,7 +111,7 @@ class CppBlock(CppElementAndComment):
             class_name_with_scope = class_name_with_scope[2:]
         else:
             # The innermost scope comes first
-            searched_scope_prefixes = current_scope.scope_hierarchy_prefix_list
+            searched_scope_prefixes = current_scope.without_template_specialization().scope_hierarchy_prefix_list
 
         all_structs = self.all_structs_recursive()
         for searched_scope_prefix in searched_scope_prefixes:
diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index c2544e8..d276ac1 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -390,7 +390,9 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
         new_class = copy.deepcopy(self)
         new_class._store_template_specs(template_specs)
 
-        was_changed = False
+        was_changed = len(new_class.specialized_template_params) > len(self.specialized_template_params)
+        if was_changed and new_class.is_template_fully_specialized():
+            template_specs.injected_class_names[new_class.class_name] = new_class.class_name_with_specialization()
 
         for ppp_new_block in new_class.block.block_children:
             if isinstance(ppp_new_block, CppPublicProtectedPrivate):
@@ -408,6 +410,7 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
 
         if was_changed:
             new_class._fill_children_parents()
+            new_class.set_new_parent(new_class.parent)  # The scope of the children includes the specialization
             return new_class
         else:
             return None
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index e9c5c53..7fe6c1c 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -379,16 +379,25 @@ class CppDecl(CppElementAndComment):
         else:
             return self
 
+    def _clear_scope_cache(self) -> None:
+        super()._clear_scope_cache()
+        if hasattr(self, "_cpp_decl_with_qualified_types"):
+            del self._cpp_decl_with_qualified_types
+
     def with_specialized_template(self, template_specs: CppTemplateSpecialization) -> CppDecl | None:
         """Returns a new decl where "template_name" is replaced by "cpp_type"
         Returns None if this decl does not use "template_name"
         """
         new_type = self.cpp_type.with_specialized_template(template_specs)
-        if new_type is None:
+        new_initial_value_code = template_specs.apply_to_code(self.initial_value_code)
+        if new_type is None and new_initial_value_code == self.initial_value_code:
             return None
         else:
             new_decl = copy.deepcopy(self)
-            new_decl.cpp_type = new_type
+            new_decl._clear_scope_cache()
+            if new_type is not None:
+                new_decl.cpp_type = new_type
+            new_decl.initial_value_code = new_initial_value_code
             return new_decl
 
     def visit_cpp_breadth_first(self, cpp_visitor_function: CppElementsVisitorFunction, depth: int = 0) -> None:
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 0a19d65..2e2332c 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -207,29 +207,12 @@ class CppType(CppElementAndComment):
         """Returns a new type where "template_name" is replaced by "cpp_type"
         Returns None if this type does not use "template_name"
         """
-        import re
-
-        was_changed = False
-        new_type = copy.deepcopy(self)
-        for i in range(len(new_type.typenames)):
-            for template_spec in template_specs.specializations:
-                assert len(template_spec.cpp_type.typenames) == 1
-                template_spec_type = template_spec.cpp_type.str_code()
-                if new_type.typenames[i] == template_spec.template_name:
-                    was_changed = True
-                    new_type.typenames[i] = template_spec_type
-                else:
-                    new_typename, nb_sub = re.subn(
-                        rf"\b{template_spec.template_name}\b", template_spec_type, new_type.typenames[i]
-                    )
-                    if nb_sub > 0:
-                        was_changed = True
-                        new_type.typenames[i] = new_typename
-
-        if was_changed:
-            return new_type
-        else:
+        new_typenames = [template_specs.apply_to_code(typename) for typename in self.typenames]
+        if new_typenames == self.typenames:
             return None
+        new_type = copy.deepcopy(self)
+        new_type.typenames = new_typenames
+        return new_type
 
     def with_qualified_types(self, current_scope: CppScope | None = None) -> CppType:
         """Returns a possibly new fully qualified type, by searching for matching types in the full CppUnit root tree
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index aad28d2..b7a6a85 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -128,6 +128,11 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
     def function_name_with_specialization(self) -> str:
         return self.function_name + self.str_template_specialization()
 
+    def _clear_scope_cache(self) -> None:
+        super()._clear_scope_cache()
+        self._cache_with_qualified_types.clear_cache()
+        self._cache_with_terse_types.clear_cache()
+
     def with_specialized_template(self, template_specs: CppTemplateSpecialization) -> CppFunctionDecl | None:
         """Returns a new partially or fully specialized template function, implemented for the given type
         Returns None if the type(s) provided by template_specs is not used by this function.
@@ -135,7 +140,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         new_function = copy.deepcopy(self)
         new_function._store_template_specs(template_specs)
 
-        was_changed = False
+        was_changed = len(new_function.specialized_template_params) > len(self.specialized_template_params)
 
         if hasattr(new_function, "return_type"):
             new_return_type = new_function.return_type.with_specialized_template(template_specs)
@@ -157,6 +162,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         new_function.parameter_list.parameters = new_parameters
 
         if was_changed:
+            new_function._clear_scope_cache()
             return new_function
         else:
             return None
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope.py b/src/srcmlcpp/cpp_types/scope/cpp_scope.py
index f94da0b..5885727 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope.py
@@ -76,6 +76,17 @@ class CppScope:
     def make_child_scope(self, child_scope: CppScopePart) -> CppScope:
         return CppScope(self.scope_parts + [child_scope])
 
+    def is_template_specialization(self) -> bool:
+        return "<" in self.str_cpp
+
+    def without_template_specialization(self) -> CppScope:
+        """Given "A::Foo<int>::B", return "A::Foo::B" """
+        if not self.is_template_specialization():
+            return self
+        return CppScope(
+            [CppScopePart(part.scope_type, part.scope_name.partition("<")[0]) for part in self.scope_parts]
+        )
+
     def qualified_name(self, name: str) -> str:
         return self.str_cpp_prefix + name
 
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
index e4fa25e..5d71300 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_identifiers.py
@@ -67,6 +67,21 @@ class CppScopeIdentifiers:
         # scoped_identifier = N::Foo
         # => can access
         new_code = apply_scoped_identifiers_to_code(
-            new_code, current_scope.scope_hierarchy_prefix_list, self._scoped_identifiers
+            new_code, current_scope.scope_hierarchy_prefix_list, self._scoped_identifiers_for_scope(current_scope)
         )
         return new_code
+
+    def _scoped_identifiers_for_scope(self, current_scope: CppScope) -> list[str]:
+        """The scoped identifiers, completed with the members of the template specializations that enclose this scope
+        (for example, inside the specialization A::Foo<int>, A::Foo::Inner is also known as A::Foo<int>::Inner)"""
+        r = self._scoped_identifiers
+        for scope in current_scope.scope_hierarchy_list:
+            if scope.is_template_specialization():
+                template_prefix = scope.without_template_specialization().str_cpp_prefix
+                specialized_identifiers = [
+                    scope.str_cpp_prefix + scoped_identifier[len(template_prefix) :]
+                    for scoped_identifier in self._scoped_identifiers
+                    if scoped_identifier.startswith(template_prefix)
+                ]
+                r = r + specialized_identifiers
+        return r
diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index bab33b5..175b683 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -32,7 +32,7 @@ def current_token_matches_scoped_identifier(
     return False
 
 
-def _apply_to_identifiers(cpp_code: str, transform_identifier: Callable[[str], str]) -> str:
+def apply_to_identifiers(cpp_code: str, transform_identifier: Callable[[str], str]) -> str:
     """Applies a function to the (possibly qualified) identifiers of a C++ code.
     The strings, the chars and the comments are left as is, as well as the members that are accessed via `.` or `->`"""
     new_code = ""
@@ -105,7 +105,7 @@ def apply_scoped_identifiers_to_code(
                 return token  # As in C++, first_name hides the same name in the outer scopes
         return token
 
-    return _apply_to_identifiers(cpp_code, qualify)
+    return apply_to_identifiers(cpp_code, qualify)
 
 
 def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) -> str:
@@ -155,4 +155,4 @@ def make_terse_code(
                 return token
         return terse_token
 
-    return _apply_to_identifiers(cpp_code, make_terse)
+    return apply_to_identifiers(cpp_code, make_terse)
diff --git a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
index c3fde59..1f2a505 100644
--- a/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
+++ b/src/srcmlcpp/cpp_types/template/cpp_template_specialization.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
+import re
 
 from srcmlcpp.cpp_types.decls_types.cpp_type import CppType
+from srcmlcpp.cpp_types.scope.cpp_scope_process import apply_to_identifiers
 
 __all__ = ["CppTemplateSpecializationPart", "CppTemplateSpecialization"]
 
@@ -41,10 +43,13 @@ class CppTemplateSpecializationPart:
 
 class CppTemplateSpecialization:
     specializations: list[CppTemplateSpecializationPart]
+    # The name of the specialized class, inside its body: { "Foo" : "Foo<int>" }
+    injected_class_names: dict[str, str]
 
     def __init__(self, check_private_constructor: str):
         if check_private_constructor != "from_within":
             raise Exception("Please use named constructors, this constructor is private!")
+        self.injected_class_names = {}
 
     @staticmethod
     def from_type_str(cpp_type_str: str, template_name: str = "") -> CppTemplateSpecialization:
@@ -63,3 +68,22 @@ class CppTemplateSpecialization:
         r = CppTemplateSpecialization("from_within")
         r.specializations = specializations
         return r
+
+    def apply_to_code(self, cpp_code: str) -> str:
+        """Replaces the template names by their types in a C++ code (a type or a value).
+        The strings, the chars and the comments are left as is"""
+
+        def specialize_identifier(identifier: str) -> str:
+            first_name, separator, last_names = identifier.partition("::")
+            for template_spec in self.specializations:
+                if first_name == template_spec.template_name:
+                    return template_spec.cpp_type.str_code() + separator + last_names
+            if first_name in self.injected_class_names:
+                return self.injected_class_names[first_name] + separator + last_names
+            return identifier
+
+        r = apply_to_identifiers(cpp_code, specialize_identifier)
+        for class_name, specialized_class_name in self.injected_class_names.items():
+            # Foo<T> was transformed into Foo<int><int>
+            r = re.sub(rf"\b{re.escape(specialized_class_name)}\s*<", f"{class_name}<", r)
+        return r
-- 
2.43.0


From a09a327e57d5e4f3a330a13999c16869433eef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 44/85] fix: functions whose name begins with operator are not
 operators

---
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index b7a6a85..82eac24 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
@@ -450,7 +451,8 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         return is_copy_ctor
 
     def is_operator(self) -> bool:
-        return self.function_name.startswith("operator")
+        # `operatorFoo` or `operators_count` are ordinary functions
+        return re.match(r"operator(?![A-Za-z0-9_])", self.function_name) is not None
 
     def operator_name(self) -> str:
         assert self.is_operator()
-- 
2.43.0


From 22c6ac1c4e8f013aaff8146ef9cec3c635dfb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 45/85] fix: the names given to unnamed parameters do not clash
 with other parameters

---
 src/litgen/internal/adapted_types/adapted_function.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 9ef15f1..2c5d194 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -262,7 +262,7 @@ class AdaptedFunction(AdaptedElement):
         self.cpp_adapted_function = function_decl
 
         # Python does not support unnamed params!
-        self.add_names_to_unnamed_params()
+        self.add_names_to_unnamed_params(lg_context)
 
         operators.raise_if_unsupported_operator(self.cpp_adapted_function)
 
@@ -398,7 +398,7 @@ class AdaptedFunction(AdaptedElement):
         r = self.cpp_element().is_constructor()
         return r
 
-    def add_names_to_unnamed_params(self) -> None:
+    def add_names_to_unnamed_params(self, lg_context: LitgenContext) -> None:
         has_unnamed_param = False
         parameters_list = self.cpp_adapted_function.parameter_list
         for param in parameters_list.parameters:
@@ -406,9 +406,15 @@ class AdaptedFunction(AdaptedElement):
                 has_unnamed_param = True
         if has_unnamed_param:
             parameters_list.parameters = copy.deepcopy(parameters_list.parameters)
+            used_names = [
+                cpp_to_python.var_name_to_python(lg_context.options, param.decl.decl_name)
+                for param in parameters_list.parameters
+            ]
             for i, param in enumerate(parameters_list.parameters):
                 if param.decl.decl_name == "":
                     param.decl.decl_name = f"param_{i}"
+                    while param.decl.decl_name in used_names:
+                        param.decl.decl_name += "_"
 
     def adapted_parameters(self) -> list[AdaptedParameter]:
         r: list[AdaptedParameter] = []
-- 
2.43.0


From 23825c59393925c2e0e1d08fec01c294da9f7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 46/85] fix: the comparisons of a spaceship operator do not
 duplicate those of the class

---
 .../internal/adapted_types/adapted_class.py   |  7 +++
 .../adapted_types/adapted_function.py         | 23 --------
 .../internal/adapted_types/operators.py       | 53 +++++++++++--------
 3 files changed, 38 insertions(+), 45 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index f3f3dad..64ac73c 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -432,6 +432,8 @@ class AdaptedClass(AdaptedElement):
                     adapted_class_member.register_name_replacement()
 
     def _init_add_adopted_class_function(self, cpp_function_decl: CppFunctionDecl) -> None:
+        from litgen.internal.adapted_types import operators
+
         class_name = self.cpp_element().class_name
 
         is_excluded_by_name_and_class = code_utils.does_match_regex_or_matcher(
@@ -439,6 +441,11 @@ class AdaptedClass(AdaptedElement):
         )
         if not is_excluded_by_name_and_class:
             if AdaptedFunction.init_is_function_publishable(self.options, cpp_function_decl):
+                if operators.is_spaceship_operator(cpp_function_decl):
+                    self.adapted_public_children += operators.split_spaceship_operator(
+                        self.lg_context, cpp_function_decl
+                    )
+                    return
                 is_overloaded = cpp_function_decl.is_overloaded_method()
                 self.adapted_public_children.append(AdaptedFunction(self.lg_context, cpp_function_decl, is_overloaded))
 
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 2c5d194..188fe70 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -445,17 +445,6 @@ class AdaptedFunction(AdaptedElement):
 
     # override
     def pydef_lines(self) -> list[str]:
-        from litgen.internal.adapted_types import operators
-
-        # Bail out if this is a <=> operator (aka spaceship operator)
-        # In this case, it will be split in 5 operators by calling 5 times _str_pydef_lines()
-        if operators.is_spaceship_operator(self):
-            new_functions = operators.cpp_split_spaceship_operator(self)
-            r = []
-            for new_function in new_functions:
-                r += new_function.pydef_lines()
-            return r
-
         # If this is a template function, implement as many versions
         # as mentioned in the options (see LitgenOptions.fn_template_options)
         # and bail out
@@ -1031,18 +1020,6 @@ class AdaptedFunction(AdaptedElement):
 
     # override
     def stub_lines(self) -> list[str]:
-        # Handle <=> (aka spaceship) operator, which is split in 5 operators!
-        from litgen.internal.adapted_types import operators
-
-        # Bail out if this is a <=> operator (aka spaceship operator)
-        # In this case, it will be split in 5 operators by calling 5 times _str_stub_lines()
-        if operators.is_spaceship_operator(self):
-            new_functions = operators.cpp_split_spaceship_operator(self)
-            r = []
-            for new_function in new_functions:
-                r += new_function.stub_lines()
-            return r
-
         # If this is a template function, implement as many versions
         # as mentioned in the options (see LitgenOptions.fn_template_options)
         # and bail out
diff --git a/src/litgen/internal/adapted_types/operators.py b/src/litgen/internal/adapted_types/operators.py
index 58636d5..00e66fa 100644
--- a/src/litgen/internal/adapted_types/operators.py
+++ b/src/litgen/internal/adapted_types/operators.py
@@ -7,12 +7,11 @@ from codemanip import code_utils
 from srcmlcpp.cpp_types import CppFunctionDecl
 
 from litgen.internal.adapted_types import AdaptedFunction
+from litgen.internal.context.litgen_context import LitgenContext
 
 CppOperatorName = str
 PythonOperatorName = str
 
-# TODO: spaceship operator "<=>": "three way comparison" (need to split adapted_function in three!)
-
 
 def _cpp_operator_unsupported_message(cpp_operator_name: CppOperatorName) -> Optional[str]:
     known_unsupported: dict[CppOperatorName, str] = {
@@ -45,7 +44,7 @@ def _cpp_to_python_operator_one_param(cpp_operator_name: CppOperatorName) -> Opt
         "*=": "__imul__",
         "/=": "__itruediv__",
         "%=": "__imod__",
-        "<=>": "<=>",  # Specific case handled separately
+        "<=>": "<=>",  # Specific case handled separately (see split_spaceship_operator)
     }
     if cpp_operator_name in known_conversions.keys():
         return known_conversions[cpp_operator_name]
@@ -113,24 +112,35 @@ def cpp_to_python_operator_name(cpp_function_decl: CppFunctionDecl) -> str:
         raise AssertionError("Logic Error in cpp_to_python_operator_name")
 
 
-def is_spaceship_operator(adapted_function: AdaptedFunction) -> bool:
-    if not adapted_function.cpp_adapted_function.is_operator():
-        return False
-    if not adapted_function.is_method():
-        return False
-    r = adapted_function.cpp_adapted_function.operator_name() == "<=>"
-    return r
+def is_spaceship_operator(cpp_function_decl: CppFunctionDecl) -> bool:
+    return (
+        cpp_function_decl.is_operator()
+        and cpp_function_decl.is_method()
+        and cpp_function_decl.operator_name() == "<=>"
+    )
 
 
-def cpp_split_spaceship_operator(adapted_spaceship_operator: AdaptedFunction) -> list[AdaptedFunction]:
-    assert is_spaceship_operator(adapted_spaceship_operator)
+def split_spaceship_operator(lg_context: LitgenContext, spaceship_operator: CppFunctionDecl) -> list[AdaptedFunction]:
+    """Splits a "<=>" operator into the five comparisons it provides.
+    A comparison which the class declares explicitly (with a parameter of the same type) is left to that declaration.
+    """
+    assert is_spaceship_operator(spaceship_operator)
+    parent_struct = spaceship_operator.parent_struct_if_method()
+    assert parent_struct is not None
 
-    r: list[AdaptedFunction] = []
+    def compared_type(cpp_function_decl: CppFunctionDecl) -> list[str]:
+        parameters = cpp_function_decl.with_qualified_types().parameter_list.parameters
+        return [" ".join(parameter.decl.cpp_type.typenames) for parameter in parameters]
 
     def make_cmp(cpp_operator_name: str, test_to_run: str) -> AdaptedFunction:
-        f = copy.deepcopy(adapted_spaceship_operator)
-        f.cpp_adapted_function.return_type.typenames = ["bool"]
-        f.cpp_adapted_function.function_name = f"operator{cpp_operator_name}"
+        cmp_operator = copy.deepcopy(spaceship_operator)
+        cmp_operator.set_new_parent(spaceship_operator.parent)
+        cmp_operator.function_name = f"operator{cpp_operator_name}"
+        cmp_operator.return_type.typenames = ["bool"]
+        cmp_operator.return_type.modifiers = []
+
+        is_overloaded = spaceship_operator.is_overloaded_method()
+        f = AdaptedFunction(lg_context, cmp_operator, is_overloaded)
         f.cpp_adapter_code = code_utils.unindent_code(
             f"""
         auto cmp = [&self](auto&& other) -> bool {{
@@ -142,10 +152,9 @@ def cpp_split_spaceship_operator(adapted_spaceship_operator: AdaptedFunction) ->
         f.lambda_to_call = "cmp"
         return f
 
-    r.append(make_cmp("<", " < 0"))
-    r.append(make_cmp("<=", " <= 0"))
-    r.append(make_cmp("==", " == 0"))
-    r.append(make_cmp(">=", " >= 0"))
-    r.append(make_cmp(">", " > 0"))
-
+    r: list[AdaptedFunction] = []
+    for cpp_operator_name in ["<", "<=", "==", ">=", ">"]:
+        explicit_operators = parent_struct.get_methods_with_name(f"operator{cpp_operator_name}")
+        if compared_type(spaceship_operator) not in [compared_type(o) for o in explicit_operators]:
+            r.append(make_cmp(cpp_operator_name, f" {cpp_operator_name} 0"))
     return r
-- 
2.43.0


From e64627a814cb40b312fbb481a0ab2d21f85d55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 47/85] fix: overloads of unary and binary operators are
 adjacent in the stub

---
 src/litgen/internal/adapted_types/adapted_block.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_block.py b/src/litgen/internal/adapted_types/adapted_block.py
index eeec975..a525ee4 100644
--- a/src/litgen/internal/adapted_types/adapted_block.py
+++ b/src/litgen/internal/adapted_types/adapted_block.py
@@ -87,6 +87,9 @@ def group_overloaded_functions(elements: list[Any]) -> list[Any]:
         reverse=True,
     )
     for insert_after, elems in insertions:
+        # Functions with the same C++ name may have different Python names (e.g. __sub__ and __neg__ for operator-)
+        names_in_group = [elem._stub_function_name_python() for elem in [result[insert_after]] + elems]
+        elems.sort(key=lambda elem: names_in_group.index(elem._stub_function_name_python()))
         for j, elem in enumerate(elems):
             result.insert(insert_after + 1 + j, elem)
 
-- 
2.43.0


From 4e9a5483462ea54e5ce1f6501cab89acc505975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:41 +0000
Subject: [PATCH 48/85] fix: static methods whose parameters are adapted are
 called without an instance, and keep their return type

---
 .../adapt_function_params/_adapt_c_buffers.py    |  2 +-
 .../adapt_modifiable_immutable_to_return.py      | 16 ++++++++++++----
 .../adapt_function_params/apply_all_adapters.py  |  4 ++--
 .../internal/adapted_types/adapted_function.py   |  8 ++++----
 src/srcmlcpp/cpp_types/decls_types/cpp_type.py   |  4 ++--
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 8724353..aa8a8c8 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -372,7 +372,7 @@ class _AdaptBuffersHelper:
             if self.adapted_function.lambda_to_call is not None:
                 function_or_lambda_to_call = self.adapted_function.lambda_to_call
             else:
-                if self.adapted_function.is_method():
+                if self.adapted_function.is_non_static_method():
                     function_or_lambda_to_call = (
                         "self." + self.adapted_function.cpp_adapted_function.function_name_with_specialization()
                     )
diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index 36ccdd6..f53ddc3 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -193,6 +193,15 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
     old_function = adapted_function.cpp_adapted_function
     was_void_return_type = old_function.returns_void()
 
+    def stored_return_type() -> str:
+        """The type of the value returned by the C++ function, when it is stored in the returned tuple"""
+        r = old_function.str_full_return_type()
+        if "&" in old_function.return_type.modifiers:
+            r = r.rstrip("& ")
+            if "*" not in old_function.return_type.modifiers and r.startswith("const "):
+                r = r[len("const ") :]
+        return r
+
     def new_return_type_and_names() -> tuple[str, str]:
         number_of_return_params = len(new_output_function_params)
         if not was_void_return_type:
@@ -208,7 +217,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             type_list = []
             name_list = []
             if not was_void_return_type:
-                type_list.append(old_function.return_type.str_code())
+                type_list.append(stored_return_type())
                 name_list.append("r")
             for new_output_function_param in new_output_function_params:
                 type_list.append(new_output_function_param.full_type())
@@ -253,14 +262,13 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
         if was_void_return_type:
             replacements.maybe_store_function_output = ""
         else:
-            old_return_type = old_function.str_full_return_type()
-            replacements.maybe_store_function_output = f"{old_return_type} r = "
+            replacements.maybe_store_function_output = f"{stored_return_type()} r = "
 
         # fill function_name
         if adapted_function.lambda_to_call is not None:
             replacements.lambda_to_call = adapted_function.lambda_to_call
         else:
-            if old_function.is_method():
+            if adapted_function.is_non_static_method():
                 replacements.lambda_to_call = "self." + old_function.function_name_with_specialization()
             else:
                 replacements.lambda_to_call = old_function.qualified_function_name_with_specialization()
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 7014894..9c05752 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -181,7 +181,7 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
     if adapted_function.lambda_to_call is not None:
         function_or_lambda_to_call = adapted_function.lambda_to_call
     else:
-        if adapted_function.is_method():
+        if adapted_function.is_non_static_method():
             function_or_lambda_to_call = (
                 "self." + adapted_function.cpp_adapted_function.function_name_with_specialization()
             )
@@ -244,7 +244,7 @@ def _make_adapted_lambda_code(adapted_function: AdaptedFunction, lambda_adapter:
     _lambda_captures_list = []
     if adapted_function.lambda_to_call is not None:
         _lambda_captures_list.append("&" + adapted_function.lambda_to_call)
-    elif adapted_function.is_method():
+    elif adapted_function.is_non_static_method():
         _lambda_captures_list.append("&self")
     lambda_captures = ", ".join(_lambda_captures_list)
 
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 188fe70..6c4de78 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -484,7 +484,7 @@ class AdaptedFunction(AdaptedElement):
         template_code = "{return_or_nothing}{self_prefix}{function_to_call}({params_call_inner})"
 
         return_or_nothing = "" if self.cpp_adapted_function.returns_void() else "return "
-        self_prefix = "self." if (self.is_method() and self.lambda_to_call is None) else ""
+        self_prefix = "self." if (self.is_non_static_method() and self.lambda_to_call is None) else ""
         # fill function_to_call
         function_to_call = (
             self.lambda_to_call
@@ -726,7 +726,7 @@ class AdaptedFunction(AdaptedElement):
 
         # fill params_call_with_self_if_method
         _params_list = function_infos.parameter_list.list_types_names_default_for_signature()
-        if self.is_method() and not self.is_constructor():
+        if self.is_non_static_method() and not self.is_constructor():
             _self_param = f"{self._pydef_str_parent_cpp_scope()} & self"
             if function_infos.is_const():
                 _self_param = "const " + _self_param
@@ -1118,7 +1118,7 @@ class AdaptedFunction(AdaptedElement):
             decorators.append("@overload")
         if (
             self._stub_need_add_staticmethod_decorator_for_module_proxy_class()
-            or self.cpp_adapted_function.is_static_method()
+            or self.cpp_element().is_static_method()
         ):
             decorators.append("@staticmethod")
 
@@ -1349,7 +1349,7 @@ class AdaptedFunction(AdaptedElement):
 
             r.append(param_code)
 
-        if self.is_method() and not self.cpp_adapted_function.is_static_method():
+        if self.is_method() and not self.cpp_element().is_static_method():
             r = ["self"] + r
         return r
 
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 2e2332c..1d72175 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -71,9 +71,9 @@ class CppType(CppElementAndComment):
     def str_return_type(self, remove_api_prefix: bool = True) -> str:
         # Remove unwanted specifiers
         # Possible specifiers : "const" "inline" "static" "virtual" "extern" "constexpr"
-        # "inline", "virtual", "extern" and "static" do not change the return type
+        # "inline", "virtual", "extern", "static" and "constexpr" do not change the return type
         specifiers = copy.copy(self.specifiers)
-        unwanted_specifiers = ["inline", "virtual", "extern", "static"]
+        unwanted_specifiers = ["inline", "virtual", "extern", "static", "constexpr"]
         for unwanted_specifier in unwanted_specifiers:
             if unwanted_specifier in self.specifiers:
                 specifiers.remove(unwanted_specifier)
-- 
2.43.0


From e516af550725d1346b6c8b1e6075b8dc484317a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 49/85] fix: trampolines override exactly the virtual methods
 that C++ allows, with their exact signatures, also for inner classes and
 template instantiations; publicists are valid C++

---
 .../internal/adapted_types/adapted_class.py   | 103 +++++++++++-------
 .../adapted_types/adapted_function.py         |  56 +++++++---
 .../internal/adapted_types/operators.py       |  10 ++
 src/srcmlcpp/cpp_types/classes/cpp_struct.py  |  30 +++--
 .../cpp_types/functions/cpp_function_decl.py  |  34 +++++-
 5 files changed, 163 insertions(+), 70 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 64ac73c..68433ef 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass
 from typing import cast
 
@@ -724,10 +725,7 @@ class AdaptedClass(AdaptedElement):
                 # nanobind does not support nodelete
                 other_template_params_list.append(f"std::unique_ptr<{qualified_struct_name}, py::nodelete>")
             if self._virt_shall_override():
-                scope = self.cpp_element().cpp_scope(False).str_cpp
-                scope_prefix = scope + "::" if len(scope) > 0 else ""
-                qualified_trampoline_name = scope_prefix + self.cpp_element().class_name + "_trampoline"
-                other_template_params_list.append(qualified_trampoline_name)
+                other_template_params_list.append(self._glue_qualified_class_name("_trampoline"))
 
             if len(other_template_params_list) > 0:
                 other_template_params = ", " + ", ".join(other_template_params_list)
@@ -819,14 +817,8 @@ class AdaptedClass(AdaptedElement):
         def make_protected_methods_code() -> str:
             r = ""
             for child in self.adapted_protected_methods:
-                # Temporarily change the name of the parent struct, to use the publicist class
-                parent_struct = child.cpp_element().parent_struct_if_method()
-                assert parent_struct is not None
-                original_class_name = parent_struct.class_name
-                parent_struct.class_name = self.cpp_element().class_name + "_publicist"
+                child.publicist_class = self._glue_qualified_class_name("_publicist")
                 decl_code = child.str_pydef()
-                parent_struct.class_name = original_class_name
-
                 r += code_utils.indent_code(decl_code, indent_str=options._indent_cpp_spaces())
             return r
 
@@ -1061,9 +1053,31 @@ class AdaptedClass(AdaptedElement):
     #
     #  ============================================================================================
 
-    def _virt_method_list_including_inherited(self) -> list[CppFunctionDecl]:
-        r = self.cpp_element().virtual_methods(include_inherited_virtual_methods=True)
-        return r
+    def _virt_overridable_methods(self) -> list[CppFunctionDecl]:
+        """The virtual methods (inherited or not) which the trampoline class will override"""
+        from litgen.internal.adapted_types import operators
+
+        def accessible_methods_list(cpp_struct: CppStruct) -> list[CppFunctionDecl]:
+            r = [method for method in cpp_struct.get_methods() if method.method_access_type() != CppAccessType.private]
+            for access_type, base_class in cpp_struct.base_classes():
+                if access_type != CppAccessType.private:
+                    r += accessible_methods_list(base_class)
+            return r
+
+        accessible_methods = accessible_methods_list(self.cpp_element())
+
+        def is_overridable(method: CppFunctionDecl) -> bool:
+            if "final" in method.specifiers:
+                return False
+            if not operators.is_supported_operator(method):
+                return False
+            # A trampoline must be able to call the method which it overrides, except if it is pure virtual
+            is_callable = any(method is m for m in accessible_methods)
+            is_publishable = AdaptedFunction.init_is_function_publishable(self.options, method)
+            return method.is_pure_virtual or (is_callable and is_publishable)
+
+        virtual_methods = self.cpp_element().virtual_methods(include_inherited_virtual_methods=True)
+        return [method for method in virtual_methods if is_overridable(method)]
 
     def _virt_store_glue_override(self) -> None:
         """If needed, add glue code (a trampoline class) in order to be able to override methods from python.
@@ -1073,7 +1087,7 @@ class AdaptedClass(AdaptedElement):
         if not self._virt_shall_override():
             return
 
-        virtual_methods = self._virt_method_list_including_inherited()
+        virtual_methods = self._virt_overridable_methods()
         nb_virtual_methods = len(virtual_methods)
 
         if self.options.bind_library == litgen.BindLibraryType.pybind11:
@@ -1083,7 +1097,7 @@ class AdaptedClass(AdaptedElement):
                 class {trampoline_class_name} : public {class_name}
                 {
                 public:
-                    using {class_name}::{class_name};
+                    using {class_name}::{constructor_name};
 
                 {trampoline_list}
                 };
@@ -1106,19 +1120,19 @@ class AdaptedClass(AdaptedElement):
             )
 
         trampoline_lines = []
-        virtual_methods = self._virt_method_list_including_inherited()
         for virtual_method in virtual_methods:
             is_overloaded = False
             adapted_virtual_method = AdaptedFunction(self.lg_context, virtual_method, is_overloaded)
-            qualified_class_name = self.cpp_element().cpp_scope_str(include_self=True)
+            qualified_class_name = self.cpp_element().qualified_class_name_with_specialization()
             trampoline_lines += adapted_virtual_method.virt_glue_override_virtual_methods_in_python(
                 qualified_class_name
             )
 
         replacements = munch.Munch()
-        replacements.trampoline_class_name = self.cpp_element().class_name + "_trampoline"
+        replacements.trampoline_class_name = self._glue_class_name("_trampoline")
+        replacements.constructor_name = self.cpp_element().class_name
         replacements.nb_virtual_methods = str(nb_virtual_methods)
-        replacements.class_name = self.cpp_element().class_name
+        replacements.class_name = self._glue_parent_class_name()
         replacements.trampoline_list = code_utils.indent_code(
             "\n".join(trampoline_lines), indent_str=self.options._indent_cpp_spaces()
         )
@@ -1139,28 +1153,33 @@ class AdaptedClass(AdaptedElement):
         active = code_utils.does_match_regex_or_matcher(
             self.options.class_override_virtual_methods_in_python__regex, self.cpp_element().class_name
         )
-        if not active:
+        if not active or self.cpp_element().is_final() or self.cpp_element().has_private_destructor():
             return False
-        virtual_methods = self._virt_method_list_including_inherited()
+        virtual_methods = self._virt_overridable_methods()
         r = len(virtual_methods) > 0
         return r
 
-    def _glue_scope_intro_outro(self) -> tuple[str, str]:
+    def _glue_namespaces(self) -> list[str]:
         scope = self.cpp_element().cpp_scope(False)
-        nb_scope_parts = len(scope.scope_parts)
-        intro = ""
-        outro = "} " * nb_scope_parts
+        return [part.scope_name for part in scope.scope_parts if part.scope_type == CppScopeType.Namespace]
 
-        for scope_part in scope.scope_parts:
-            if scope_part.scope_type == CppScopeType.Namespace:
-                intro += f"namespace {scope_part.scope_name} {{ "
-            else:
-                raise SrcmlcppException("Bad scope for protected member")
+    def _glue_parent_class_name(self) -> str:
+        """The name of the C++ class, inside the namespaces of the glue code"""
+        r = self.cpp_element().qualified_class_name_with_specialization()
+        return r[len("".join(namespace + "::" for namespace in self._glue_namespaces())) :]
 
-        for scope_part in reversed(scope.scope_parts):
-            if scope_part.scope_type == CppScopeType.Namespace:
-                outro += f" // namespace {scope_part.scope_name} "
+    def _glue_class_name(self, suffix: str) -> str:
+        """The name of a helper class of the glue code: it is in the namespaces of the C++ class"""
+        return re.sub(r"\W+", "_", self._glue_parent_class_name()).strip("_") + suffix
 
+    def _glue_qualified_class_name(self, suffix: str) -> str:
+        return "::".join(self._glue_namespaces() + [self._glue_class_name(suffix)])
+
+    def _glue_scope_intro_outro(self) -> tuple[str, str]:
+        namespaces = self._glue_namespaces()
+        intro = "".join(f"namespace {namespace} {{ " for namespace in namespaces)
+        outro = "} " * len(namespaces)
+        outro += "".join(f" // namespace {namespace} " for namespace in reversed(namespaces))
         return intro, outro
 
     #  ============================================================================================
@@ -1183,9 +1202,11 @@ class AdaptedClass(AdaptedElement):
         def using_list() -> list[str]:
             r = []
             for child in self.adapted_protected_methods:
-                class_name = self.cpp_element().class_name
+                class_name = self._glue_parent_class_name()
                 method_name = child.cpp_element().function_name
-                r.append(f"using {class_name}::{method_name};")
+                using = f"using {class_name}::{method_name};"
+                if using not in r:
+                    r.append(using)
             return r
 
         publicist_class_template = code_utils.unindent_code(
@@ -1201,8 +1222,8 @@ class AdaptedClass(AdaptedElement):
         )
 
         replacements = munch.Munch()
-        replacements.publicist_class_name = self.cpp_element().class_name + "_publicist"
-        replacements.class_name = self.cpp_element().class_name
+        replacements.publicist_class_name = self._glue_class_name("_publicist")
+        replacements.class_name = self._glue_parent_class_name()
         replacements.using_list = code_utils.indent_code(
             "\n".join(using_list()), indent_str=self.options._indent_cpp_spaces()
         )
@@ -1224,11 +1245,17 @@ class AdaptedClass(AdaptedElement):
             return
         for child in self.cpp_element().get_elements(access_type=CppAccessType.protected):
             if isinstance(child, CppFunctionDecl):
+                from litgen.internal.adapted_types import operators
+
+                if child.is_constructor() or child.is_destructor() or not operators.is_supported_operator(child):
+                    continue
                 if AdaptedFunction.init_is_function_publishable(self.options, child):
                     is_overloaded = child.is_overloaded_method()
                     self.adapted_protected_methods.append(AdaptedFunction(self.lg_context, child, is_overloaded))
 
     def _prot_shall_publish(self) -> bool:
+        if self.cpp_element().is_final() or self.cpp_element().has_private_destructor():
+            return False
         r = code_utils.does_match_regex_or_matcher(
             self.options.class_expose_protected_methods__regex, self.cpp_element().class_name
         )
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 6c4de78..4c701c9 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -267,6 +267,7 @@ class AdaptedFunction(AdaptedElement):
         operators.raise_if_unsupported_operator(self.cpp_adapted_function)
 
         self.cpp_adapter_code = None
+        self.publicist_class = ""
         self.lambda_to_call = initial_lambda_to_call
 
         super().__init__(lg_context, function_decl)
@@ -394,6 +395,9 @@ class AdaptedFunction(AdaptedElement):
     def is_method(self) -> bool:
         return self.cpp_element().is_method()
 
+    def is_non_static_method(self) -> bool:
+        return self.is_method() and not self.cpp_element().is_static_method()
+
     def is_constructor(self) -> bool:
         r = self.cpp_element().is_constructor()
         return r
@@ -653,8 +657,11 @@ class AdaptedFunction(AdaptedElement):
                         f"[](){return_arrow} {{ return {parent_scope}::{function_name}(); }}"
                     )
                 else:
+                    self_param, self_expr = f"{self._pydef_str_self_class()} & self", "self"
+                    if len(self.publicist_class) > 0:
+                        self_expr = f"static_cast<{self.publicist_class} &>(self)"
                     replace_tokens.function_pointer = (
-                        f"[]({parent_scope} & self){return_arrow} {{ return self.{function_name}(); }}"
+                        f"[]({self_param}){return_arrow} {{ return {self_expr}.{function_name}(); }}"
                     )
             else:
                 overload_types = self.cpp_element().parameter_list.str_types_only_for_overload()
@@ -727,9 +734,9 @@ class AdaptedFunction(AdaptedElement):
         # fill params_call_with_self_if_method
         _params_list = function_infos.parameter_list.list_types_names_default_for_signature()
         if self.is_non_static_method() and not self.is_constructor():
-            _self_param = f"{self._pydef_str_parent_cpp_scope()} & self"
-            if function_infos.is_const():
-                _self_param = "const " + _self_param
+            _self_name = "self" if len(self.publicist_class) == 0 else "published_self"
+            _maybe_const = "const " if function_infos.is_const() else ""
+            _self_param = f"{_maybe_const}{self._pydef_str_self_class()} & {_self_name}"
             _params_list = [_self_param] + _params_list
         replace_tokens.params_call_with_self_if_method = ", ".join(_params_list)
 
@@ -745,6 +752,10 @@ class AdaptedFunction(AdaptedElement):
 
         # fill lambda_adapter_code
         replace_lines.lambda_adapter_code = self.cpp_adapter_code
+        if len(self.publicist_class) > 0 and self.is_non_static_method():
+            # The protected methods are accessible via the publicist class
+            _cast = f"auto & self = static_cast<{_maybe_const}{self.publicist_class} &>(published_self);"
+            replace_lines.lambda_adapter_code = _cast + "\n" + (self.cpp_adapter_code or "")
 
         if replace_lines.lambda_adapter_code is not None:
             replace_lines.lambda_adapter_code = code_utils.indent_code(
@@ -998,11 +1009,19 @@ class AdaptedFunction(AdaptedElement):
         if self.is_method():
             parent_struct = self.cpp_element().parent_struct_if_method()
             assert parent_struct is not None
+            if len(self.publicist_class) > 0:
+                return self.publicist_class
             r = parent_struct.qualified_class_name_with_specialization()
         else:
             r = self.cpp_element().cpp_scope_str(include_self=False)
         return r
 
+    def _pydef_str_self_class(self) -> str:
+        """The class of the object on which a method is called, in the lambdas"""
+        parent_struct = self.cpp_element().parent_struct_if_method()
+        assert parent_struct is not None
+        return parent_struct.qualified_class_name_with_specialization()
+
     def _pydef_str_parent_cpp_scope_prefix(self) -> str:
         r = self._pydef_str_parent_cpp_scope()
         if len(r) > 0:
@@ -1055,7 +1074,7 @@ class AdaptedFunction(AdaptedElement):
             is_overridable = code_utils.does_match_regex_or_matcher(
                 self.options.class_override_virtual_methods_in_python__regex, parent_struct.class_name
             )
-            if is_overridable:
+            if is_overridable and "final" not in self.cpp_element().specifiers:
                 comment_python_overridable = " # overridable"
                 if self.cpp_element().is_pure_virtual:
                     comment_python_overridable += " (pure virtual)"
@@ -1463,16 +1482,14 @@ class AdaptedFunction(AdaptedElement):
     #  ============================================================================================
 
     def virt_glue_override_virtual_methods_in_python(self, implemented_class: str) -> list[str]:
-        assert self.cpp_element().is_virtual_method()
-
         if self.options.bind_library == BindLibraryType.pybind11:
             template_code = code_utils.unindent_code(
                 """
-            {return_type} {function_name_cpp}({param_list}){maybe_const} override
+            {return_type} {function_name_cpp}({param_list}){maybe_const}{maybe_noexcept} override
             {
             {_i_}{OVERRIDE_TYPE}(
-            {_i_}{_i_}{return_type}, // return type
-            {_i_}{_i_}{implemented_class}, // parent class
+            {_i_}{_i_}{return_type_macro}, // return type
+            {_i_}{_i_}{implemented_class_macro}, // parent class
             {_i_}{_i_}"{function_name_python}", // function name (python)
             {_i_}{_i_}{function_name_cpp}{maybe_comma_if_has_params} // function name (c++)
             {_i_}{_i_}{param_names} // params
@@ -1484,7 +1501,7 @@ class AdaptedFunction(AdaptedElement):
         else:
             template_code = code_utils.unindent_code(
                 """
-            {return_type} {function_name_cpp}({param_list}){maybe_const} override
+            {return_type} {function_name_cpp}({param_list}){maybe_const}{maybe_noexcept} override
             {
             {_i_}{OVERRIDE_TYPE}(
             {_i_}{_i_}"{function_name_python}", // function name (python)
@@ -1509,11 +1526,20 @@ class AdaptedFunction(AdaptedElement):
         replacements._i_ = self.options._indent_cpp_spaces()
         replacements.return_type = self.cpp_element().return_type.str_return_type()
         replacements.function_name_cpp = self.cpp_element().function_name_with_specialization()
-        replacements.function_name_python = cpp_to_python.function_name_to_python(
-            self.options, self.cpp_element().function_name
-        )
+        replacements.function_name_python = self._stub_function_name_python()
         replacements.maybe_const = " const" if self.cpp_element().is_const() else ""
-        replacements.implemented_class = implemented_class
+        replacements.maybe_noexcept = ""
+        if self.cpp_element().noexcept is not None:
+            replacements.maybe_noexcept = " noexcept" + self.cpp_element().noexcept
+
+        def as_macro_argument(cpp_type: str) -> str:
+            return f"PYBIND11_TYPE({cpp_type})" if "," in cpp_type else cpp_type
+
+        replacements.return_type_macro = as_macro_argument(replacements.return_type)
+        if self.cpp_element().is_operator() and self.cpp_element().operator_name() == "bool":
+            # a conversion operator has no return type
+            replacements.return_type, replacements.return_type_macro = "", "bool"
+        replacements.implemented_class_macro = as_macro_argument(implemented_class)
         replacements.param_list = self.cpp_element().parameter_list.str_types_names_default_for_signature()
         replacements.maybe_comma_if_has_params = "," if has_params else ""
 
diff --git a/src/litgen/internal/adapted_types/operators.py b/src/litgen/internal/adapted_types/operators.py
index 00e66fa..d20de14 100644
--- a/src/litgen/internal/adapted_types/operators.py
+++ b/src/litgen/internal/adapted_types/operators.py
@@ -5,6 +5,7 @@ from typing import Optional
 from codemanip import code_utils
 
 from srcmlcpp.cpp_types import CppFunctionDecl
+from srcmlcpp.srcmlcpp_exception import SrcmlcppException
 
 from litgen.internal.adapted_types import AdaptedFunction
 from litgen.internal.context.litgen_context import LitgenContext
@@ -90,6 +91,15 @@ def raise_if_unsupported_operator(cpp_function_decl: CppFunctionDecl) -> None:
         cpp_function_decl.raise_exception(f'Unsupported "operator {operator_name}" (only 0 or 1 params are accepted')
 
 
+def is_supported_operator(cpp_function_decl: CppFunctionDecl) -> bool:
+    """Returns False for the operators that cannot be published (and True for all other functions)"""
+    try:
+        raise_if_unsupported_operator(cpp_function_decl)
+        return True
+    except SrcmlcppException:
+        return False
+
+
 def cpp_to_python_operator_name(cpp_function_decl: CppFunctionDecl) -> str:
     assert cpp_function_decl.is_operator() and cpp_function_decl.is_method()
     raise_if_unsupported_operator(cpp_function_decl)
diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index d276ac1..1a8a26b 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -354,28 +354,26 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
         return False
 
     def virtual_methods(self, include_inherited_virtual_methods: bool) -> list[CppFunctionDecl]:
-        virtual_methods = []
-        for base_method in self.get_methods():
-            if base_method.is_virtual_method():
-                virtual_methods.append(base_method)
-
-        def is_method_already_present(method: CppFunctionDecl) -> bool:
-            for present_method in virtual_methods:
-                same_name = present_method.function_name == method.function_name
-                same_parameters_types = (
-                    present_method.parameter_list.str_types_names_only() == method.parameter_list.str_types_names_only()
-                )
-                if same_name and same_parameters_types:
-                    return True
-            return False
+        """The virtual methods of this class, including those which override a method of a base class implicitly.
+        An inherited method is included if this class does not override it."""
+        methods = self.get_methods()
+        virtual_methods = [method for method in methods if method.is_virtual_method()]
+        if not include_inherited_virtual_methods:
+            return virtual_methods
 
         for _access_type, base_class in self.base_classes():
             for base_method in base_class.virtual_methods(include_inherited_virtual_methods):
-                if not is_method_already_present(base_method):
-                    virtual_methods.append(base_method)
+                if any(method.has_same_signature(base_method) for method in virtual_methods):
+                    continue
+                implicit_overriders = [method for method in methods if method.has_same_signature(base_method)]
+                virtual_methods.append(implicit_overriders[0] if len(implicit_overriders) > 0 else base_method)
 
         return virtual_methods
 
+    def is_abstract(self) -> bool:
+        """Returns True if at least one virtual method (inherited or not) is pure virtual"""
+        return any(method.is_pure_virtual for method in self.virtual_methods(include_inherited_virtual_methods=True))
+
     def _fill_children_parents(self) -> None:
         self.block.parent = self
         for ppp_block in self.block.block_children:
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 82eac24..00fa958 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -341,9 +341,41 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
             return False
         if not hasattr(self, "return_type"):
             return False
-        is_virtual = "virtual" in self.return_type.specifiers or "override" in self.specifiers
+        is_virtual = (
+            "virtual" in self.return_type.specifiers or "override" in self.specifiers or "final" in self.specifiers
+        )
         return is_virtual
 
+    def has_same_signature(self, other: CppFunctionDecl) -> bool:
+        """Returns True if both methods have the same name, parameters types and constness:
+        one of them overrides the other if it is virtual"""
+
+        def params_types(method: CppFunctionDecl) -> list[str]:
+            r = []
+            for param in method.with_qualified_types().parameter_list.parameters:
+                cpp_type = copy.deepcopy(param.decl.cpp_type)
+                if len(cpp_type.modifiers) == 0:
+                    # The constness of the parameters which are passed by value is not a part of the signature
+                    cpp_type.specifiers = [specifier for specifier in cpp_type.specifiers if specifier != "const"]
+                r.append(cpp_type.str_code() + param.decl.c_array_code)
+            return r
+
+        def are_same_types(type1: str, type2: str) -> bool:
+            # the names of the types might be qualified only partially
+            regex_name = r"[\w:]+"
+            if re.split(regex_name, type1) != re.split(regex_name, type2):
+                return False
+            names = zip(re.findall(regex_name, type1), re.findall(regex_name, type2))
+            return all(("::" + n1).endswith("::" + n2) or ("::" + n2).endswith("::" + n1) for n1, n2 in names)
+
+        params_types1, params_types2 = params_types(self), params_types(other)
+        return (
+            self.function_name == other.function_name
+            and self.is_const() == other.is_const()
+            and len(params_types1) == len(params_types2)
+            and all(are_same_types(type1, type2) for type1, type2 in zip(params_types1, params_types2))
+        )
+
     def is_overloaded_method(self) -> bool:
         if not self.is_method():
             return False
-- 
2.43.0


From f86c2f065f93fa9cd47ac995c63f21c324f4444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 50/85] fix: constructors instantiate the trampoline, and
 abstract classes are not constructed nor copied

---
 .../apply_all_adapters.py                     |  5 +--
 .../internal/adapted_types/adapted_class.py   | 36 ++++++++++++++++---
 .../adapted_types/adapted_function.py         |  2 ++
 3 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 9c05752..fa973a2 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -92,7 +92,7 @@ def _apply_all_adapters_on_constructor(inout_adapted_function: AdaptedFunction)
             """
                 auto ctor_wrapper = []({parameters_code}) ->  std::unique_ptr<{class_name}>
                 {
-                    return std::make_unique<{class_name}>({parameters_names});
+                    return std::make_unique<{constructed_class}>({parameters_names});
                 };
             """,
             flag_strip_empty_lines=True,
@@ -108,7 +108,7 @@ def _apply_all_adapters_on_constructor(inout_adapted_function: AdaptedFunction)
             """
                 auto ctor_wrapper = []({class_name}* self, {parameters_code}) ->  void
                 {
-                    new(self) {class_name}({parameters_names}); // placement new
+                    new(self) {constructed_class}({parameters_names}); // placement new
                 };
             """,
             flag_strip_empty_lines=True,
@@ -117,6 +117,7 @@ def _apply_all_adapters_on_constructor(inout_adapted_function: AdaptedFunction)
     replacements = Munch()
     replacements.parameters_code = parameter_list.str_types_names_default_for_signature()
     replacements.class_name = parent_struct.qualified_class_name_with_specialization()
+    replacements.constructed_class = inout_adapted_function.constructed_class or replacements.class_name
     replacements.parameters_names = parameter_list.str_names_only_for_call()
 
     ctor_wrapper_signature_code = code_utils.process_code_template(ctor_wrapper_signature_template, replacements)
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 68433ef..7284d50 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -447,8 +447,15 @@ class AdaptedClass(AdaptedElement):
                         self.lg_context, cpp_function_decl
                     )
                     return
+                if cpp_function_decl.is_constructor() and not self._can_be_constructed():
+                    return
                 is_overloaded = cpp_function_decl.is_overloaded_method()
-                self.adapted_public_children.append(AdaptedFunction(self.lg_context, cpp_function_decl, is_overloaded))
+                constructed_class = self._constructed_class() if cpp_function_decl.is_constructor() else ""
+                self.adapted_public_children.append(
+                    AdaptedFunction(
+                        self.lg_context, cpp_function_decl, is_overloaded, constructed_class=constructed_class
+                    )
+                )
 
     def _init_fill_public_children(self) -> None:
         public_elements = self.cpp_element().get_elements(access_type=CppAccessType.public)
@@ -605,6 +612,7 @@ class AdaptedClass(AdaptedElement):
             not self.cpp_element().has_user_defined_constructor()
             and not self.cpp_element().has_deleted_default_constructor()
             and not self.cpp_element().has_implicitly_deleted_default_constructor()
+            and self._can_be_constructed()
         ):
             ctor_helper = PythonNamedConstructorHelper(self)
             ctor_code = ctor_helper.stub_code()
@@ -791,6 +799,8 @@ class AdaptedClass(AdaptedElement):
                 return f"{_i_}// (default constructor explicitly deleted)\n"
             elif self.cpp_element().has_implicitly_deleted_default_constructor():
                 return f"{_i_}// (default constructor implicitly deleted)\n"
+            elif not self._can_be_constructed():
+                return f"{_i_}// (abstract class: no constructor)\n"
             elif not self.cpp_element().has_user_defined_constructor():
                 python_named_ctor_helper = PythonNamedConstructorHelper(self)
                 return python_named_ctor_helper.pydef_code()
@@ -908,6 +918,9 @@ class AdaptedClass(AdaptedElement):
         else:
             match_regex = self.options.class_deep_copy__regex
 
+        if self.cpp_element().is_abstract():
+            return False
+
         if not code_utils.does_match_regex_or_matcher(match_regex, self.cpp_element().class_name):
             return False
 
@@ -1156,9 +1169,24 @@ class AdaptedClass(AdaptedElement):
         if not active or self.cpp_element().is_final() or self.cpp_element().has_private_destructor():
             return False
         virtual_methods = self._virt_overridable_methods()
+        all_virtual_methods = self.cpp_element().virtual_methods(include_inherited_virtual_methods=True)
+        for method in all_virtual_methods:
+            if method.is_pure_virtual and not any(method is m for m in virtual_methods):
+                return False  # The trampoline class would be abstract
         r = len(virtual_methods) > 0
         return r
 
+    def _can_be_constructed(self) -> bool:
+        """An abstract class can only be constructed if its methods can be overridden in python"""
+        return not self.cpp_element().is_abstract() or self._virt_shall_override()
+
+    def _constructed_class(self) -> str:
+        """The C++ class which is instantiated by the constructors which are implemented by a lambda:
+        a python class which inherits from this class can override its methods only if it is the trampoline class"""
+        if self._virt_shall_override():
+            return self._glue_qualified_class_name("_trampoline")
+        return self.cpp_element().qualified_class_name_with_specialization()
+
     def _glue_namespaces(self) -> list[str]:
         scope = self.cpp_element().cpp_scope(False)
         return [part.scope_name for part in scope.scope_parts if part.scope_type == CppScopeType.Namespace]
@@ -1478,7 +1506,7 @@ class PythonNamedConstructorHelper:
                 .def(py::init<>([](
                 {all_params_signature})
                 {
-                {_i_}auto r_ctor_ = std::make_unique<{qualified_struct_name}>();
+                {_i_}auto r_ctor_ = std::make_unique<{constructed_class}>();
                 {all_params_set_values}
                 {_i_}return r_ctor_;
                 })
@@ -1492,7 +1520,7 @@ class PythonNamedConstructorHelper:
                 """
                 .def("__init__", []({all_params_signature})
                 {
-                {_i_}new (self) {qualified_struct_name}();  // placement new
+                {_i_}new (self) {constructed_class}();  // placement new
                 {_i_}auto r_ctor_ = self;
                 {all_params_set_values}
                 },
@@ -1504,7 +1532,7 @@ class PythonNamedConstructorHelper:
 
         replacements = munch.Munch()
         replacements._i_ = _i_
-        replacements.qualified_struct_name = self.cpp_class.qualified_class_name_with_specialization()
+        replacements.constructed_class = self.adapted_class._constructed_class()
         replacements.all_params_signature = ctor_decl_adapted.parameter_list.str_types_names_default_for_signature()
 
         replacements_lines = munch.Munch()
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 4c701c9..fa36ba2 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -248,6 +248,7 @@ class AdaptedFunction(AdaptedElement):
         function_decl: CppFunctionDecl,
         is_overloaded: bool,
         initial_lambda_to_call: str | None = None,
+        constructed_class: str = "",
     ) -> None:
         from litgen.internal import adapt_function_params
         from litgen.internal.adapted_types import operators
@@ -268,6 +269,7 @@ class AdaptedFunction(AdaptedElement):
 
         self.cpp_adapter_code = None
         self.publicist_class = ""
+        self.constructed_class = constructed_class
         self.lambda_to_call = initial_lambda_to_call
 
         super().__init__(lg_context, function_decl)
-- 
2.43.0


From ff9d62cc7c7af563730f7b01943582feed4e1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:42 +0000
Subject: [PATCH 51/85] fix: adapted protected methods are called via the
 publicist

---
 .../adapt_function_params/_adapt_c_buffers.py       |  4 +---
 .../adapt_modifiable_immutable_to_return.py         |  2 +-
 .../adapt_function_params/apply_all_adapters.py     |  4 +---
 src/litgen/internal/adapted_types/adapted_class.py  |  6 ++++--
 .../internal/adapted_types/adapted_function.py      | 13 +++++++++++--
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index aa8a8c8..7fbca8c 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -377,9 +377,7 @@ class _AdaptBuffersHelper:
                         "self." + self.adapted_function.cpp_adapted_function.function_name_with_specialization()
                     )
                 else:
-                    function_or_lambda_to_call = (
-                        self.adapted_function.cpp_adapted_function.qualified_function_name_with_specialization()
-                    )
+                    function_or_lambda_to_call = self.adapted_function.qualified_function_name_for_call()
 
             # Fill maybe_return
             _fn_return_type = self.function_infos.str_full_return_type()
diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index f53ddc3..5c6a3d8 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -271,7 +271,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             if adapted_function.is_non_static_method():
                 replacements.lambda_to_call = "self." + old_function.function_name_with_specialization()
             else:
-                replacements.lambda_to_call = old_function.qualified_function_name_with_specialization()
+                replacements.lambda_to_call = adapted_function.qualified_function_name_for_call()
 
         # fill params
         replacements.params = ", ".join(lambda_adapter.adapted_cpp_parameter_list)
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index fa973a2..73932a2 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -187,9 +187,7 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
                 "self." + adapted_function.cpp_adapted_function.function_name_with_specialization()
             )
         else:
-            function_or_lambda_to_call = (
-                adapted_function.cpp_adapted_function.qualified_function_name_with_specialization()
-            )
+            function_or_lambda_to_call = adapted_function.qualified_function_name_for_call()
 
     # Fill maybe_return_r
     maybe_return_r = None if _fn_return_type == "void" else "return lambda_result"
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 7284d50..8846b5e 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -827,7 +827,6 @@ class AdaptedClass(AdaptedElement):
         def make_protected_methods_code() -> str:
             r = ""
             for child in self.adapted_protected_methods:
-                child.publicist_class = self._glue_qualified_class_name("_publicist")
                 decl_code = child.str_pydef()
                 r += code_utils.indent_code(decl_code, indent_str=options._indent_cpp_spaces())
             return r
@@ -1279,7 +1278,10 @@ class AdaptedClass(AdaptedElement):
                     continue
                 if AdaptedFunction.init_is_function_publishable(self.options, child):
                     is_overloaded = child.is_overloaded_method()
-                    self.adapted_protected_methods.append(AdaptedFunction(self.lg_context, child, is_overloaded))
+                    publicist_class = self._glue_qualified_class_name("_publicist")
+                    self.adapted_protected_methods.append(
+                        AdaptedFunction(self.lg_context, child, is_overloaded, publicist_class=publicist_class)
+                    )
 
     def _prot_shall_publish(self) -> bool:
         if self.cpp_element().is_final() or self.cpp_element().has_private_destructor():
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index fa36ba2..0c745f3 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -249,6 +249,7 @@ class AdaptedFunction(AdaptedElement):
         is_overloaded: bool,
         initial_lambda_to_call: str | None = None,
         constructed_class: str = "",
+        publicist_class: str = "",
     ) -> None:
         from litgen.internal import adapt_function_params
         from litgen.internal.adapted_types import operators
@@ -268,7 +269,7 @@ class AdaptedFunction(AdaptedElement):
         operators.raise_if_unsupported_operator(self.cpp_adapted_function)
 
         self.cpp_adapter_code = None
-        self.publicist_class = ""
+        self.publicist_class = publicist_class
         self.constructed_class = constructed_class
         self.lambda_to_call = initial_lambda_to_call
 
@@ -400,6 +401,12 @@ class AdaptedFunction(AdaptedElement):
     def is_non_static_method(self) -> bool:
         return self.is_method() and not self.cpp_element().is_static_method()
 
+    def qualified_function_name_for_call(self) -> str:
+        """The C++ name by which a function or a static method can be called"""
+        if len(self.publicist_class) > 0:
+            return self.publicist_class + "::" + self.cpp_adapted_function.function_name_with_specialization()
+        return self.cpp_adapted_function.qualified_function_name_with_specialization()
+
     def is_constructor(self) -> bool:
         r = self.cpp_element().is_constructor()
         return r
@@ -1442,7 +1449,9 @@ class AdaptedFunction(AdaptedElement):
 
         new_cpp_function = self.cpp_element().with_specialized_template(CppTemplateSpecialization.from_type(cpp_type))
         assert new_cpp_function is not None
-        new_adapted_function = AdaptedFunction(self.lg_context, new_cpp_function, self.is_overloaded)
+        new_adapted_function = AdaptedFunction(
+            self.lg_context, new_cpp_function, self.is_overloaded, publicist_class=self.publicist_class
+        )
         return new_adapted_function
 
     def _tpl_split_into_template_instantiations(self) -> list[AdaptedFunction]:
-- 
2.43.0


From 7632c040f8584ed8c207b6b19d64d5bb659c2b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 52/85] fix: the body of a class is never empty, nor made only
 of comments, in the stub

---
 src/litgen/internal/adapted_types/adapted_element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_element.py b/src/litgen/internal/adapted_types/adapted_element.py
index d3e1518..efe5278 100644
--- a/src/litgen/internal/adapted_types/adapted_element.py
+++ b/src/litgen/internal/adapted_types/adapted_element.py
@@ -172,8 +172,10 @@ class AdaptedElement:  # (abc.ABC):  # Cannot be abstract (mypy limitation:  htt
         title_lines = [first_line] + title_lines[1:]
 
         # Preprocess: align comments in body
-        if body_lines is None or (isinstance(body_lines, list) and len(body_lines) == 0):
+        if body_lines is None or all(len(line.strip()) == 0 for line in body_lines):
             body_lines = ["pass"]
+        elif all(len(line.strip()) == 0 or line.strip().startswith("#") for line in body_lines):
+            body_lines = body_lines + ["pass"]  # a body can not be made only of comments
         body_lines = code_utils.align_python_comments_in_block_lines(body_lines)
 
         all_lines = title_lines
-- 
2.43.0


From a2fc771c25ea5edc87cf062221134f4964cbf756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 53/85] fix: parameter names of Callable types are removed
 after types that contain commas and brackets

---
 src/litgen/internal/cpp_to_python.py | 48 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index d902f0a..23bd8b4 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -134,23 +134,39 @@ def _strip_callable_param_names(python_type: str) -> str:
     """
     import re
 
+    def _split_params(params_str: str) -> list[str]:
+        """Splits at the commas that are not inside brackets"""
+        params = [""]
+        depth = 0
+        for c in params_str:
+            depth += {"[": 1, "]": -1}.get(c, 0)
+            if c == "," and depth == 0:
+                params.append("")
+            else:
+                params[-1] += c
+        return params
+
     def _strip_one_param(param: str) -> str:
-        param = param.strip()
-        if not param:
-            return param
-        # Split on whitespace; if the last token is a plain identifier
-        # (not a type-like thing with dots, brackets, or special chars), drop it
-        tokens = param.split()
-        if len(tokens) >= 2 and re.match(r"^[a-zA-Z_]\w*$", tokens[-1]):
-            return " ".join(tokens[:-1])
-        return param
-
-    def _replace_callable_params(match: re.Match[str]) -> str:
-        params_str = match.group(1)
-        params = [_strip_one_param(p) for p in params_str.split(",")]
-        return "Callable[[" + ", ".join(params) + "]"
-
-    return re.sub(r"Callable\[\[([^\]]*)\]", _replace_callable_params, python_type)
+        param = _strip_callable_param_names(param.strip())
+        # If a plain identifier follows the type, drop it
+        match = re.match(r"^(.*(?:\]\s*|\s))[a-zA-Z_]\w*$", param)
+        return match.group(1).strip() if match is not None else param
+
+    start = python_type.find("Callable[[")
+    if start < 0:
+        return python_type
+    params_start = start + len("Callable[[")
+    depth = 1
+    params_end = params_start
+    while params_end < len(python_type) and depth > 0:
+        depth += {"[": 1, "]": -1}.get(python_type[params_end], 0)
+        params_end += 1
+    if depth > 0:
+        return python_type
+    params_end -= 1
+
+    params = [_strip_one_param(p) for p in _split_params(python_type[params_start:params_end])]
+    return python_type[:params_start] + ", ".join(params) + _strip_callable_param_names(python_type[params_end:])
 
 
 def _namespaces_to_python(lg_context: LitgenContext, python_str: str) -> str:
-- 
2.43.0


From 203e9a964c90713ac74d2c152b64d233fe0d6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 54/85] fix: unsigned, signed and short values are modifiable
 numbers

---
 src/litgen/internal/cpp_to_python.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 23bd8b4..6a7a7a0 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -429,6 +429,11 @@ CPP_PYTHON_NUMERIC_INT_SYNONYMS = [
     CppPythonTypesSynonyms("int", "int"),
     CppPythonTypesSynonyms("unsigned int", "int"),
     CppPythonTypesSynonyms("signed int", "int"),
+    CppPythonTypesSynonyms("unsigned", "int"),
+    CppPythonTypesSynonyms("signed", "int"),
+    CppPythonTypesSynonyms("short", "int"),
+    CppPythonTypesSynonyms("unsigned short", "int"),
+    CppPythonTypesSynonyms("signed short", "int"),
     CppPythonTypesSynonyms("long", "int"),
     CppPythonTypesSynonyms("unsigned long", "int"),
     CppPythonTypesSynonyms("signed long", "int"),
-- 
2.43.0


From abec39619680f4f1e63f32bc11ead98dcd6f9315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 55/85] fix: all the fundamental integer types, std:: prefixed
 integers and standard containers are translated to Python

---
 src/litgen/internal/cpp_to_python.py | 32 ++++++++--------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 6a7a7a0..928e0ec 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -831,49 +831,35 @@ def standard_type_replacements() -> RegexReplacementList:
     * NULL, nullptr, void translation
     """
 
-    # RegexReplacementList is greedy! Some types like 'unsigned int' need to be
-    # first attempted to be replaced by a conversion targetting also the
-    # 'unsigned' qualifier to prevent errors.
+    # RegexReplacementList is greedy! Types made of several words like 'unsigned int' or 'long double' need to be
+    # replaced as a whole.
     replacements_str = r"""
-    \bunsigned \s*int\b -> int
-    \bunsigned \s*short\b -> int
-    \bunsigned \s*long long\b -> int
-    \bunsigned \s*long\b -> int
-
-    \blong \s*long\b -> int
     \blong \s*double\b -> float
+    \b(?:(?:unsigned|signed|short|long|int)\s+)*(?:unsigned|signed|short|long|int)\b(?!\s*char\b) -> int
 
     \bconst \s*char*\b -> str
     \bconst \s*char *\b -> str
 
-    \buint8_t\b -> int
-    \bint8_t\b -> int
-    \buint16_t\b -> int
-    \bint16_t\b -> int
-    \buint32_t\b -> int
-    \bint32_t\b -> int
-    \buint64_t\b -> int
-    \bint64_t\b -> int
-    \blong\b -> int
-    \bshort\b -> int
+    \b(?:std::)?u?int(?:8|16|32|64)_t\b -> int
+    \b(?:std::)?(?:size_t|ssize_t|ptrdiff_t|u?intptr_t|u?intmax_t)\b -> int
 
     \bdouble\b -> float
     \bfloat\b -> float
 
-    \bsize_t\b -> int
     \bstd::function<(.*)\((.*)\)> -> Callable[[\2], \1]
     \bstd::string_view\b -> str
     \bstd::string\(\) -> ""
-    \bstd::string\b -> str
+    \bstd::(?:string|wstring|u8string|u16string|u32string)\b -> str
     \bstd::unique_ptr<(.*?)> -> \1
     \bstd::shared_ptr<(.*?)> -> \1
-    \bstd::vector\s*<\s*(.*?)\s*> -> List[\1]
+    \bstd::(?:vector|list|deque)\s*<\s*(.*?)\s*> -> List[\1]
+    \bstd::(?:unordered_)?set\s*<\s*(.*?)\s*> -> Set[\1]
     \bstd::array\s*<\s*(.*?)\s*,\s*(.*?)\s*> -> List[\1]
     \bstd::tuple<(.*?)> -> Tuple[\1]
     \bstd::pair<(.*?)> -> Tuple[\1]
     \bstd::variant<(.*?)> -> Union[\1]
     \bstd::optional<(.*?)> -> Optional[\1]
-    \bstd::map<\s*(.*?)\s*,\s*(.*?)\s*> -> Dict[\1, \2]
+    \bstd::(?:unordered_)?map<\s*(.*?)\s*,\s*(.*?)\s*> -> Dict[\1, \2]
 
     \bvoid\s*\* -> Any
     \bvoid\b -> None
-- 
2.43.0


From 32689633877e3bd928bb867b9178796d25a15068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 56/85] fix: boxed types of std:: prefixed types, and of their
 unprefixed synonyms, are defined once

---
 src/litgen/internal/boxed_python_type.py | 4 ++--
 src/litgen/litgen_generator.py           | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/litgen/internal/boxed_python_type.py b/src/litgen/internal/boxed_python_type.py
index 9003315..49de6ca 100644
--- a/src/litgen/internal/boxed_python_type.py
+++ b/src/litgen/internal/boxed_python_type.py
@@ -12,8 +12,8 @@ def _can_box_cpp_type(cpp_type: str) -> bool:
 
 def boxed_type_name(cpp_type: str) -> str:
     assert _can_box_cpp_type(cpp_type)
-    if cpp_type == "std::string":
-        cpp_type = "string"
+    if cpp_type.startswith("std::"):
+        cpp_type = cpp_type[len("std::") :]
     boxed_name = "Boxed" + cpp_to_python.cpp_type_to_camel_case_no_space(cpp_type)
     return boxed_name
 
diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index ee92a2d..cf1b805 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -177,11 +177,13 @@ class LitgenGenerator:
         return stub_code
 
     def _boxed_types_cpp_code(self) -> CppCode:
-        cpp_codes = []
+        cpp_codes = {}
         for cpp_boxed_type in sorted(self.lg_context.encountered_cpp_boxed_types):
             indent_str = self.lg_context.options._indent_cpp_spaces()
-            cpp_codes.append(boxed_python_type.boxed_type_cpp_struct_code(cpp_boxed_type, indent_str))
-        r = "".join(cpp_codes)
+            # (size_t and std::size_t share the same boxed type)
+            boxed_name = boxed_python_type.boxed_type_name(cpp_boxed_type)
+            cpp_codes[boxed_name] = boxed_python_type.boxed_type_cpp_struct_code(cpp_boxed_type, indent_str)
+        r = "".join(cpp_codes.values())
         return r
 
     def process_cpp_code(self, code: str, filename: str) -> None:
-- 
2.43.0


From 08473ca2d2321d8e7dc016c7ee2b1dd61df9ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 57/85] fix: the variables of the lambdas do not clash with the
 parameters of the function

---
 .../internal/adapt_function_params/_adapt_c_arrays.py    | 7 ++++---
 .../internal/adapt_function_params/_lambda_adapter.py    | 7 +++++++
 .../adapt_modifiable_immutable_to_return.py              | 9 ++++++---
 .../internal/adapt_function_params/apply_all_adapters.py | 9 ++++++---
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_arrays.py b/src/litgen/internal/adapt_function_params/_adapt_c_arrays.py
index 39b9afc..42aa991 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_arrays.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_arrays.py
@@ -6,7 +6,7 @@ from codemanip import code_utils
 
 from srcmlcpp.cpp_types import CppParameter
 
-from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
+from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter, unused_variable_name
 from litgen.internal.adapted_types import AdaptedFunction, AdaptedParameter
 
 
@@ -132,8 +132,9 @@ def adapt_c_arrays(adapted_function: AdaptedFunction) -> Optional[LambdaAdapter]
                     # output_1.value = output_raw[1];
 
                     old_adapted_param_renamed = copy.deepcopy(old_adapted_param)
-                    old_adapted_param_renamed.cpp_element().decl.decl_name = (
-                        old_adapted_param_renamed.cpp_element().decl.decl_name + "_raw"
+                    old_adapted_param_renamed.cpp_element().decl.decl_name = unused_variable_name(
+                        old_cpp_decl.decl_name + "_raw",
+                        [param.cpp_element().decl.decl_name for param in old_function_params],
                     )
                     lambda_adapter.lambda_input_code += old_adapted_param_renamed.cpp_element().str_code() + ";\n"
 
diff --git a/src/litgen/internal/adapt_function_params/_lambda_adapter.py b/src/litgen/internal/adapt_function_params/_lambda_adapter.py
index 25565ce..8793b98 100644
--- a/src/litgen/internal/adapt_function_params/_lambda_adapter.py
+++ b/src/litgen/internal/adapt_function_params/_lambda_adapter.py
@@ -19,3 +19,10 @@ class LambdaAdapter:
     def __init__(self) -> None:
         self.new_function_infos = None
         self.adapted_cpp_parameter_list = []
+
+
+def unused_variable_name(name: str, used_names: list[str]) -> str:
+    """The name of a variable of the lambda, which shall not be the name of one of its parameters"""
+    while name in used_names:
+        name += "_"
+    return name
diff --git a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
index 5c6a3d8..add294a 100644
--- a/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
+++ b/src/litgen/internal/adapt_function_params/adapt_modifiable_immutable_to_return.py
@@ -8,7 +8,7 @@ from codemanip import code_utils
 
 from srcmlcpp.cpp_types import CppParameter, CppType
 
-from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
+from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter, unused_variable_name
 from litgen.internal.adapted_types import AdaptedFunction, AdaptedParameter
 
 
@@ -193,6 +193,9 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
     old_function = adapted_function.cpp_adapted_function
     was_void_return_type = old_function.returns_void()
 
+    # (a parameter may be named "r")
+    result_name = unused_variable_name("r", [param.decl.decl_name for param in new_function_params])
+
     def stored_return_type() -> str:
         """The type of the value returned by the C++ function, when it is stored in the returned tuple"""
         r = old_function.str_full_return_type()
@@ -218,7 +221,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
             name_list = []
             if not was_void_return_type:
                 type_list.append(stored_return_type())
-                name_list.append("r")
+                name_list.append(result_name)
             for new_output_function_param in new_output_function_params:
                 type_list.append(new_output_function_param.full_type())
                 name_list.append(new_output_function_param.decl.decl_name)
@@ -262,7 +265,7 @@ def adapt_modifiable_immutable_to_return(adapted_function: AdaptedFunction) -> O
         if was_void_return_type:
             replacements.maybe_store_function_output = ""
         else:
-            replacements.maybe_store_function_output = f"{stored_return_type()} r = "
+            replacements.maybe_store_function_output = f"{stored_return_type()} {result_name} = "
 
         # fill function_name
         if adapted_function.lambda_to_call is not None:
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 73932a2..c928221 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -7,7 +7,7 @@ from litgen import BindLibraryType
 from srcmlcpp.cpp_types import CppFunctionDecl
 from srcmlcpp import srcmlcpp_main
 
-from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
+from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter, unused_variable_name
 from litgen.internal.adapted_types import AdaptedFunction
 
 
@@ -172,9 +172,12 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
         _return_referenced = "&" in adapted_function.cpp_element().return_type.modifiers
 
     # Fill auto_r_equal_or_void
+    assert lambda_adapter.new_function_infos is not None
+    _parameters = lambda_adapter.new_function_infos.parameter_list.parameters
+    result_name = unused_variable_name("lambda_result", [param.decl.decl_name for param in _parameters])
     if _fn_return_type != "void":
         _auto = "auto&" if _return_referenced else "auto"
-        auto_r_equal_or_void = f"{_auto} lambda_result = "
+        auto_r_equal_or_void = f"{_auto} {result_name} = "
     else:
         auto_r_equal_or_void = ""
 
@@ -190,7 +193,7 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
             function_or_lambda_to_call = adapted_function.qualified_function_name_for_call()
 
     # Fill maybe_return_r
-    maybe_return_r = None if _fn_return_type == "void" else "return lambda_result"
+    maybe_return_r = None if _fn_return_type == "void" else f"return {result_name}"
 
     # Fill maybe_lambda_output_code
     if len(lambda_adapter.lambda_output_code) > 0:
-- 
2.43.0


From 12b1e1577ebfe24598fecc094e1d8c62c836d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 58/85] fix: types named cha..., functions that return
 std::string and arrays of templates are translated to Python

---
 src/litgen/internal/cpp_to_python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 928e0ec..a46907e 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -327,6 +327,7 @@ def var_value_to_python(
     options = lg_context.options
     r, protected_parts = _protect_value_parts(default_value_cpp)
     r = options.class_template_options.specialize_types_in_value(r, options.type_replacements)
+    r = re.sub(r"\bstd::string\(\)", '""', r)
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
@@ -837,8 +838,8 @@ def standard_type_replacements() -> RegexReplacementList:
     \blong \s*double\b -> float
     \b(?:(?:unsigned|signed|short|long|int)\s+)*(?:unsigned|signed|short|long|int)\b(?!\s*char\b) -> int
 
-    \bconst \s*char*\b -> str
-    \bconst \s*char *\b -> str
+    \bconst\s+char\b -> str
+    \bchar\s+const\b -> str
 
     \b(?:std::)?u?int(?:8|16|32|64)_t\b -> int
     \b(?:std::)?(?:size_t|ssize_t|ptrdiff_t|u?intptr_t|u?intmax_t)\b -> int
-- 
2.43.0


From 3945849e931754cab7bdb5be916c4213d4efc2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 59/85] fix: the names of the parameters of std::function are
 removed after any template

---
 src/litgen/internal/cpp_to_python.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index a46907e..80d9899 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -97,9 +97,12 @@ def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replaceme
     tokens = _split_cpp_type_template_args(cpp_type_str)
     # tokens is [before, inside, after]
 
-    # Apply replacements to 'before' and 'after'
+    # Apply replacements to 'before' and 'after' (which may contain other templates)
     before = type_replacements.apply(tokens[0].strip())
-    after = type_replacements.apply(tokens[2].strip())
+    after = _perform_cpp_type_replacements_recursively(tokens[2].strip(), type_replacements)
+    if tokens[2][:1].isspace():
+        # (name of a parameter of a std::function, separated from its type)
+        after = " " + after
 
     # Recursively process 'inside'
     inside = _perform_cpp_type_replacements_recursively(tokens[1].strip(), type_replacements)
@@ -849,13 +852,12 @@ def standard_type_replacements() -> RegexReplacementList:
 
     \bstd::function<(.*)\((.*)\)> -> Callable[[\2], \1]
     \bstd::string_view\b -> str
-    \bstd::string\(\) -> ""
     \bstd::(?:string|wstring|u8string|u16string|u32string)\b -> str
     \bstd::unique_ptr<(.*?)> -> \1
     \bstd::shared_ptr<(.*?)> -> \1
     \bstd::(?:vector|list|deque)\s*<\s*(.*?)\s*> -> List[\1]
     \bstd::(?:unordered_)?set\s*<\s*(.*?)\s*> -> Set[\1]
-    \bstd::array\s*<\s*(.*?)\s*,\s*(.*?)\s*> -> List[\1]
+    \bstd::array\s*<\s*([^<>]*?)\s*,\s*([^,<>]*?)\s*> -> List[\1]
     \bstd::tuple<(.*?)> -> Tuple[\1]
     \bstd::pair<(.*?)> -> Tuple[\1]
     \bstd::variant<(.*?)> -> Union[\1]
-- 
2.43.0


From d9a15c63e1fab8dac0502b8f55d89b8e26df5892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 60/85] fix: const pointers are not pointers to const, and may
 be returned

---
 .../internal/adapted_types/adapted_class.py   |  2 +
 .../cpp_types/decls_types/cpp_type.py         | 50 +++++++++----------
 src/srcmlcpp/internal/cpp_types_parse.py      |  5 +-
 3 files changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 8846b5e..0a1a0a5 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1352,6 +1352,8 @@ class PythonNamedConstructorHelper:
                 specifiers = member.cpp_type.specifiers
                 if "const" in specifiers or "constexpr" in specifiers or "extern" in specifiers:
                     return False
+                if member.cpp_type.is_const_pointer():
+                    return False
 
                 if len(member.bitfield_range) > 0:
                     return False  # Refuse bitfields!
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 1d72175..49b8b38 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -53,6 +53,10 @@ class CppType(CppElementAndComment):
     # modifiers: could be ["*"], ["&&"], ["&"], ["*", "*"], ["..."]
     modifiers: list[str]
 
+    # const_modifiers: positions (in the list of modifiers) of the pointers that are const,
+    # i.e. [0] for `int * const`, whereas [] for `const int *`
+    const_modifiers: list[int]
+
     # template arguments types i.e ["int"] for vector<int>
     # (this will not be filled: see note about composed types)
     # argument_list: List[str]
@@ -63,6 +67,7 @@ class CppType(CppElementAndComment):
         self.typenames: list[str] = []
         self.specifiers: list[str] = []
         self.modifiers: list[str] = []
+        self.const_modifiers: list[int] = []
 
     @staticmethod
     def authorized_modifiers() -> list[str]:
@@ -79,17 +84,14 @@ class CppType(CppElementAndComment):
                 specifiers.remove(unwanted_specifier)
         specifiers_str = code_utils.join_remove_empty(" ", specifiers)
 
-        # Handle const
-        nb_const = self.specifiers.count("const")
-        assert nb_const <= 1
-
         # Handle typenames with possible auto
         if len(self.typenames) > 1 and self.typenames[0] == "auto":
             name = " ".join(self.typenames[1:])
         else:
             name = " ".join(self.typenames)
 
-        modifiers_str = code_utils.join_remove_empty(" ", self.modifiers)
+        # (a returned pointer cannot be modified, even if it is not const)
+        modifiers_str = code_utils.join_remove_empty(" ", self._modifiers_codes(strip_last_const=True))
         strs = [specifiers_str, name, modifiers_str]
         return_type_str = code_utils.join_remove_empty(" ", strs)
 
@@ -100,31 +102,22 @@ class CppType(CppElementAndComment):
 
         return return_type_str
 
-    def str_code(self) -> str:
-        nb_const = self.specifiers.count("const")
-
-        if nb_const > 2:
-            raise ValueError("CppType.str_code() cannot handle more than two `const` occurrences in a type!")
-
-        specifiers = copy.copy(self.specifiers)
-        if nb_const == 2:
-            # remove the last const and handle it later
-            specifier_r: list[str] = list(reversed(specifiers))
-            specifier_r.remove("const")
-            specifiers = list(reversed(specifier_r))
+    def _modifiers_codes(self, strip_last_const: bool = False) -> list[str]:
+        codes = []
+        for i, modifier in enumerate(self.modifiers):
+            codes.append(modifier)
+            if modifier == "*" and i in self.const_modifiers and not (strip_last_const and i == len(self.modifiers) - 1):
+                codes.append("const")
+        return codes
 
-        specifiers_str = code_utils.join_remove_empty(" ", specifiers)
-        modifiers_str = code_utils.join_remove_empty(" ", self.modifiers)
+    def str_code(self) -> str:
+        specifiers_str = code_utils.join_remove_empty(" ", self.specifiers)
+        modifiers_str = code_utils.join_remove_empty(" ", self._modifiers_codes())
 
         name = " ".join(self.typenames)
 
-        name_and_arg = name
-        strs = [specifiers_str, name_and_arg, modifiers_str]
+        strs = [specifiers_str, name, modifiers_str]
         r = code_utils.join_remove_empty(" ", strs)
-
-        if nb_const == 2:
-            r += " const"
-
         return r
 
     def name_without_modifier_specifier(self) -> str:
@@ -132,7 +125,12 @@ class CppType(CppElementAndComment):
         return name
 
     def is_const(self) -> bool:
-        return "const" in self.specifiers or "constexpr" in self.specifiers
+        return "const" in self.specifiers or "constexpr" in self.specifiers or self.is_const_pointer()
+
+    def is_const_pointer(self) -> bool:
+        """Returns True for a pointer which cannot be modified (`int * const`)"""
+        i = len(self.modifiers) - 1
+        return i in self.const_modifiers and self.modifiers[i] == "*"
 
     def is_reference(self) -> bool:
         return "&" in self.modifiers
diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index a70596a..439dd2e 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -106,7 +106,10 @@ def parse_type(
         elif child_tag == "specifier":
             child_text = child.text()
             assert child_text is not None
-            result.specifiers.append(child_text)
+            if child_text == "const" and result.modifiers[-1:] == ["*"]:
+                result.const_modifiers.append(len(result.modifiers) - 1)
+            else:
+                result.specifiers.append(child_text)
         elif child_tag == "modifier":
             modifier_text = child.text()
             assert modifier_text is not None
-- 
2.43.0


From 8f7bf0a3098548b9c693fe9e66635cec3d199c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 61/85] fix: a pointer is a buffer only if the type it points
 to is one of the buffer types

---
 .../adapt_function_params/_adapt_c_buffers.py | 40 +++++++------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 7fbca8c..2013c48 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -13,34 +13,22 @@ from litgen.internal.adapted_types import AdaptedFunction
 from litgen.options import LitgenOptions, BindLibraryType
 
 
-def _possible_buffer_pointer_types(options: LitgenOptions) -> list[str]:
-    types = [t + "*" for t in options._fn_params_buffer_types_list()] + [
-        t + " *" for t in options._fn_params_buffer_types_list()
-    ]
-    return types
-
-
-def _possible_buffer_template_pointer_types(options: LitgenOptions) -> list[str]:
-    types = [t + "*" for t in options._fn_params_buffer_template_types_list()] + [
-        t + " *" for t in options._fn_params_buffer_template_types_list()
-    ]
-    return types
+def _pointed_type(param: CppParameter) -> Optional[str]:
+    """The type of the elements (without const and std::) if this param is a pointer, e.g. "uint8_t" or "long long" """
+    cpp_type = param.decl.cpp_type
+    if cpp_type.modifiers != ["*"] or param.decl.is_c_array():
+        return None
+    if param.has_default_value():
+        return None  # an array cannot replace a pointer which is null by default
+    return " ".join(cpp_type.typenames).removeprefix("std::")
 
 
 def _looks_like_param_buffer_standard(options: LitgenOptions, param: CppParameter) -> bool:
-    for possible_buffer_type in _possible_buffer_pointer_types(options):
-        param_type_code = param.full_type()
-        if code_utils.contains_pointer_type(param_type_code, possible_buffer_type):
-            return True
-    return False
+    return _pointed_type(param) in options._fn_params_buffer_types_list()
 
 
 def _looks_like_param_template_buffer(options: LitgenOptions, param: CppParameter) -> bool:
-    for possible_buffer_type in _possible_buffer_template_pointer_types(options):
-        param_type_code = param.full_type()
-        if code_utils.contains_pointer_type(param_type_code, possible_buffer_type):
-            return True
-    return False
+    return _pointed_type(param) in options._fn_params_buffer_template_types_list()
 
 
 def _name_looks_like_buffer_standard_or_template(options: LitgenOptions, param: CppParameter) -> bool:
@@ -520,7 +508,7 @@ class _AdaptBuffersHelper:
         return "const " if self._is_const(idx_param) else ""
 
     def _original_raw_type(self, idx_param: int) -> str:
-        return self._param(idx_param).decl.cpp_type.typenames[0]
+        return " ".join(self._param(idx_param).decl.cpp_type.typenames)
 
     def _adapted_param_buffer_standard(self, idx_param: int) -> str:
         const_space_or_empty = "const " if self._is_const(idx_param) else ""
@@ -559,19 +547,19 @@ class _AdaptBuffersHelper:
         return template
 
     def _expected_dtype_char(self, idx_param: int) -> str:
-        dtype_char = cpp_to_python.cpp_type_to_py_array_type(self._original_raw_type(idx_param))
+        dtype_char = cpp_to_python.cpp_type_to_py_array_type(self._original_raw_type(idx_param).removeprefix("std::"))
         if self.options.bind_library == BindLibraryType.pybind11:
             return dtype_char
         else:
             raise RuntimeError("Not implemented for nanobind")
 
     def _nanobind_dtype_code(self, idx_param: int) -> str:
-        raw_cpp_type = self._original_raw_type(idx_param)
+        raw_cpp_type = self._original_raw_type(idx_param).removeprefix("std::")
         dtype_code = cpp_to_python.nanobind_cpp_type_to_dtype_code(raw_cpp_type)
         return dtype_code
 
     def _nanobind_dtype_code_as_uint8(self, idx_param: int) -> str:
-        raw_cpp_type = self._original_raw_type(idx_param)
+        raw_cpp_type = self._original_raw_type(idx_param).removeprefix("std::")
         dtype_code = cpp_to_python.nanobind_cpp_type_to_dtype_code_as_uint8(raw_cpp_type)
         return dtype_code
 
-- 
2.43.0


From 0587d2c96899fb03f08810b7963bc07d48f5d131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 62/85] fix: sizes and strides whose type has several words are
 not truncated

---
 src/litgen/internal/adapt_function_params/_adapt_c_buffers.py | 4 ++--
 .../internal/adapt_function_params/_adapt_c_string_list.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 2013c48..ccfbe6f 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -476,7 +476,7 @@ class _AdaptBuffersHelper:
 
     def _adapted_param_buffer_size(self, idx_param: int) -> str:
         param = self._param(idx_param)
-        raw_size_type = param.decl.cpp_type.typenames[0]
+        raw_size_type = " ".join(param.decl.cpp_type.typenames)
         count_variable = self._pyarray_count(idx_param)
         r = f"static_cast<{raw_size_type}>({count_variable})"
         return r
@@ -619,7 +619,7 @@ class _AdaptBuffersHelper:
     def _adapted_param_stride(self, idx_param: int) -> str:
         stride_param = self._param(idx_param)
         stride_adapted_name = self._stride_adapted_name(idx_param)
-        stride_param_raw_type = stride_param.decl.cpp_type.typenames[0]
+        stride_param_raw_type = " ".join(stride_param.decl.cpp_type.typenames)
         if stride_param_raw_type != "int":
             r = f"static_cast<{stride_param_raw_type}>({stride_adapted_name})"
         else:
diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
index 92f5381..f82096a 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
@@ -103,7 +103,7 @@ def adapt_c_string_list(adapted_function: AdaptedFunction) -> Optional[LambdaAda
             param_name = new_decl.decl_name
             vec_name = f"{param_name}_ptrs"
             next_param = old_function_params[i + 1]
-            size_type = next_param.decl.cpp_type.typenames[0]
+            size_type = " ".join(next_param.decl.cpp_type.typenames)
             size_name = next_param.decl.decl_name
 
             if size_type != "size_t" and size_type != "std::size_t":
-- 
2.43.0


From 4b689dce248e0874af6af51822c2a80e867cc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 63/85] fix: two arrays that share a size must have the same
 size

---
 .../adapt_function_params/_adapt_c_buffers.py     | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index ccfbe6f..3ae5aa4 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -544,8 +544,23 @@ class _AdaptBuffersHelper:
                         size_t {_._pyarray_count(idx_param)} = {_._param_name(idx_param)}.shape(0);
                     """  # noqa
         template = code_utils.unindent_code(template, flag_strip_empty_lines=True) + "\n"
+        template += self._lambda_input_buffer_check_shared_size(idx_param)
         return template
 
+    def _lambda_input_buffer_check_shared_size(self, idx_param: int) -> str:
+        """When several buffers share the same size (e.g. `const float* xs, const float* ys, int count`),
+        the C++ function reads `count` elements in all of them."""
+        if idx_param == 0 or not self._is_buffer_template_or_not(idx_param - 1):
+            return ""
+        _i_ = self.options._indent_cpp_spaces()
+        name, previous_name = self._param_name(idx_param), self._param_name(idx_param - 1)
+        template = f"""
+            // '{previous_name}' and '{name}' share the same size
+            if ({self._pyarray_count(idx_param - 1)} != {self._pyarray_count(idx_param)})
+            {_i_}throw std::runtime_error("The arrays \\"{previous_name}\\" and \\"{name}\\" must have the same size");
+        """
+        return code_utils.unindent_code(template, flag_strip_empty_lines=True) + "\n"
+
     def _expected_dtype_char(self, idx_param: int) -> str:
         dtype_char = cpp_to_python.cpp_type_to_py_array_type(self._original_raw_type(idx_param).removeprefix("std::"))
         if self.options.bind_library == BindLibraryType.pybind11:
-- 
2.43.0


From 60b0a8d0964a86639249ef56a6a1cbd877e235f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 64/85] fix: a template function that needs its type outside of
 the arrays is not adapted to buffers

---
 .../internal/adapt_function_params/_adapt_c_buffers.py   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 3ae5aa4..546a3ad 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -127,6 +127,8 @@ class _AdaptBuffersHelper:
             self.adapted_function.cpp_adapted_function.function_name,
         ):
             return False
+        if self.has_template_buffer_param() and self._depends_on_template_outside_buffers():
+            return False
         for idx in range(self._nb_params()):
             if self._is_buffer_template_or_not(idx):
                 return True
@@ -136,6 +138,13 @@ class _AdaptBuffersHelper:
         param = self._last_template_buffer_param()
         return param is not None
 
+    def _depends_on_template_outside_buffers(self) -> bool:
+        """The template can be called for the type of an array only if the arrays are all that depends on it"""
+        types = [self.function_infos.str_full_return_type()]
+        types += [p.full_type() for i, p in enumerate(self._params()) if not self._is_buffer_template(i)]
+        template_types = self.options._fn_params_buffer_template_types_list()
+        return any(code_utils.contains_word(type_, t) for type_ in types for t in template_types)
+
     def _param(self, idx_param: int) -> CppParameter:
         assert 0 <= idx_param < len(self.function_infos.parameter_list.parameters)
         return self.function_infos.parameter_list.parameters[idx_param]
-- 
2.43.0


From b1e54b88762b16883f9ef380f1a5e97d1ec2680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 65/85] fix: np_uint_l and np_int_l are known to nanobind
 buffers

---
 src/litgen/internal/cpp_to_python.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 80d9899..381e51d 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -534,6 +534,8 @@ _NANOBIND_CPP_TYPE_TO_DTYPE_CODE = {
     "uint64_t": "UInt",
     "int64_t": "Int",
     # Int types with unknown size
+    "np_uint_l": "UInt",
+    "np_int_l": "Int",
     "int": "Int",
     "signed int": "Int",
     "unsigned int": "UInt",
-- 
2.43.0


From d73651cfaf82562a17f3c79656fbcd47f93157cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 66/85] fix: a list of C strings that is null by default keeps
 a default value

---
 .../adapt_function_params/_adapt_c_string_list.py         | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
index f82096a..3fe5105 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
@@ -87,7 +87,9 @@ def adapt_c_string_list(adapted_function: AdaptedFunction) -> Optional[LambdaAda
             new_decl = new_param.decl
             if new_decl.is_c_array():
                 new_decl.c_array_code = ""
-            new_decl.initial_value_code = ""
+            if new_decl.initial_value_code != "":
+                # A null list, by default
+                new_decl.initial_value_code = "std::vector<std::string>()"
             new_decl.cpp_type.specifiers = ["const"]
             new_decl.cpp_type.typenames = ["std::vector<std::string>"]
             new_decl.cpp_type.modifiers = ["&"]
@@ -201,7 +203,9 @@ def adapt_c_string_list_no_count(adapted_function: AdaptedFunction) -> Optional[
             new_decl = new_param.decl
             if new_decl.is_c_array():
                 new_decl.c_array_code = ""
-            new_decl.initial_value_code = ""
+            if new_decl.initial_value_code != "":
+                # A null list, by default
+                new_decl.initial_value_code = "std::vector<std::string>()"
             new_decl.cpp_type.specifiers = ["const"]
             new_decl.cpp_type.typenames = ["std::vector<std::string>"]
             new_decl.cpp_type.modifiers = ["&"]
-- 
2.43.0


From 987bf519e2aefaca4716e1315e4ae6a880266045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:54 +0000
Subject: [PATCH 67/85] fix: const char * null by default: nanobind, lifetime
 of the string and const pointers

---
 .../adapt_const_char_pointer_with_default_null.py    | 12 +++++++-----
 .../internal/adapted_types/adapted_function.py       |  4 +++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py b/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
index 8040fdf..131521c 100644
--- a/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
+++ b/src/litgen/internal/adapt_function_params/adapt_const_char_pointer_with_default_null.py
@@ -5,6 +5,7 @@ from codemanip import code_utils
 from srcmlcpp.cpp_types import CppParameter
 from litgen.internal.adapt_function_params._lambda_adapter import LambdaAdapter
 from litgen.internal.adapted_types import AdaptedFunction, AdaptedParameter
+from litgen.options import BindLibraryType
 
 
 def adapt_const_char_pointer_with_default_null(adapted_function: AdaptedFunction) -> Optional[LambdaAdapter]:
@@ -13,8 +14,9 @@ def adapt_const_char_pointer_with_default_null(adapted_function: AdaptedFunction
     if not options.fn_params_const_char_pointer_with_default_null:
         return None
 
+    # nanobind never converts None to a null `const char *`, contrary to pybind11
     function_name = adapted_function.cpp_adapted_function.function_name
-    if not code_utils.does_match_regex_or_matcher(
+    if options.bind_library != BindLibraryType.nanobind and not code_utils.does_match_regex_or_matcher(
         options.fn_params_output_modifiable_immutable_to_return__regex, function_name
     ):
         return None
@@ -39,20 +41,20 @@ def adapt_const_char_pointer_with_default_null(adapted_function: AdaptedFunction
         if old_adapted_param.is_const_char_pointer_with_default_null():
             new_param = copy.deepcopy(old_adapted_param.cpp_element())
             new_decl = new_param.decl
-            new_decl.cpp_type.modifiers = []
-            new_decl.cpp_type.specifiers = []
+            # (a reference, since the function may return the pointer that it receives)
+            new_decl.cpp_type.modifiers = ["&"]
+            new_decl.cpp_type.specifiers = ["const"]
             new_decl.cpp_type.typenames = ["std::optional<std::string>"]
             new_decl.initial_value_code = "std::nullopt"
 
             new_function_params.append(new_param)
 
-            param_original_type = old_adapted_param.cpp_element().full_type()
             param_name_value = old_adapted_param.cpp_element().decl.decl_name + "_adapt_default_null"
             param_name = old_adapted_param.cpp_element().decl.decl_name
             _i_ = options._indent_cpp_spaces()
 
             lambda_input_code = f"""
-                {param_original_type} {param_name_value} = nullptr;
+                const char * {param_name_value} = nullptr;
                 if ({param_name}.has_value())
                 {_i_}{param_name_value} = {param_name}.value().c_str();
             """
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 0c745f3..bf5fd96 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -79,7 +79,9 @@ class AdaptedParameter(AdaptedElement):
         is_char = type_names == ["char"]
         is_default_null = initial_value_cpp in ["NULL", "nullptr"]
 
-        r = is_pointer and is_const and is_char and is_default_null
+        is_c_array = self.cpp_element().decl.is_c_array()
+
+        r = is_pointer and is_const and is_char and is_default_null and not is_c_array
         return r
 
     def adapted_decl(self) -> AdaptedDecl:
-- 
2.43.0


From 63d4b2d061402a7e304a949130301b910e7cf4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:54 +0000
Subject: [PATCH 68/85] fix: variadic functions are adapted before their other
 parameters

---
 .../internal/adapt_function_params/apply_all_adapters.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index c928221..94035f3 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -49,7 +49,8 @@ def apply_all_adapters(inout_adapted_function: AdaptedFunction) -> None:
     assert_parents_are_present()
 
     all_adapters_functions = [
-        adapt_c_buffers,  # must be done at start
+        adapt_variadic_format,  # must be done at start (a lambda cannot transmit variadic parameters)
+        adapt_c_buffers,  # must be done before the other adapters
         adapt_exclude_params,
         adapt_mutable_param_with_default_value,  # must be done just after adapt_exclude_params
         adapt_c_arrays,
@@ -58,7 +59,6 @@ def apply_all_adapters(inout_adapted_function: AdaptedFunction) -> None:
         adapt_modifiable_immutable,  # must be done *after* adapt_c_buffers
         adapt_c_string_list,
         adapt_c_string_list_no_count,
-        adapt_variadic_format,
     ]
     all_adapters_functions += inout_adapted_function.options.fn_custom_adapters
 
-- 
2.43.0


From 24f12b1f836bfc662824aefc45ec601a98cfcace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 69/85] fix: do not publish the macros whose value is an
 expression that starts and ends with a string

#define FMT "%" PRIu64 "x" was published as a string in the stub, which was invalid Python
---
 src/litgen/internal/adapted_types/adapted_define.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_define.py b/src/litgen/internal/adapted_types/adapted_define.py
index 6768a3f..e1e72f3 100644
--- a/src/litgen/internal/adapted_types/adapted_define.py
+++ b/src/litgen/internal/adapted_types/adapted_define.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 from dataclasses import dataclass
 from enum import Enum
+import re
 from typing import cast
 from munch import Munch  # type: ignore
 
@@ -22,8 +23,11 @@ class _PreprocessorDefineValueType(Enum):
 
 
 def _compute_define_value_type(define_value: str) -> _PreprocessorDefineValueType:
-    if define_value.startswith('"') and define_value.endswith('"'):
-        return _PreprocessorDefineValueType.String
+    if define_value.startswith('"'):
+        # One string literal, or several adjacent ones (but not an expression made of strings and other macros)
+        if re.fullmatch(r'("([^"\\]|\\.)*"\s*)+', define_value):
+            return _PreprocessorDefineValueType.String
+        return _PreprocessorDefineValueType.Other
 
     nb_dots = define_value.count(".")
     if nb_dots > 1:
-- 
2.43.0


From e900d6082c5e6f990ae212daecbc23efaf362904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 70/85] fix: signed octal macro values (-010 is not a valid
 Python number)

---
 src/litgen/internal/adapted_types/adapted_define.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_define.py b/src/litgen/internal/adapted_types/adapted_define.py
index e1e72f3..b50522e 100644
--- a/src/litgen/internal/adapted_types/adapted_define.py
+++ b/src/litgen/internal/adapted_types/adapted_define.py
@@ -29,6 +29,9 @@ def _compute_define_value_type(define_value: str) -> _PreprocessorDefineValueTyp
             return _PreprocessorDefineValueType.String
         return _PreprocessorDefineValueType.Other
 
+    if re.match(r"[+-][\w.]", define_value):
+        define_value = define_value[1:]  # the sign does not change the type
+
     nb_dots = define_value.count(".")
     if nb_dots > 1:
         return _PreprocessorDefineValueType.Other
@@ -85,9 +88,9 @@ class AdaptedDefine(AdaptedElement):
     def published_python_value(self) -> str:
         macro_value = self.cpp_element().macro_value
         if _compute_define_value_type(macro_value) == _PreprocessorDefineValueType.Octal:
-            return (
-                "0o" + macro_value[1:]
-            )  # Python 3.11 require 0o as a prefix for octal values (a good decision indeed)
+            # Python 3.11 require 0o as a prefix for octal values (a good decision indeed)
+            sign = macro_value[:1] if macro_value[:1] in ["+", "-"] else ""
+            return sign + "0o" + macro_value[len(sign) + 1 :]
         else:
             return macro_value
 
-- 
2.43.0


From cf4747f716666b1bf7c23b9df35effe8bc384d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 71/85] fix: no crash when a template function which is not
 instantiated is an overload of a function

---
 src/litgen/internal/adapted_types/stub_overload_dedup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/stub_overload_dedup.py b/src/litgen/internal/adapted_types/stub_overload_dedup.py
index 5414c9a..850184e 100644
--- a/src/litgen/internal/adapted_types/stub_overload_dedup.py
+++ b/src/litgen/internal/adapted_types/stub_overload_dedup.py
@@ -58,8 +58,10 @@ def dedup_stub_lines(elements: Sequence[AdaptedElement]) -> list[tuple[AdaptedEl
             and elem.is_overloaded_in_python
             and elem._stub_function_name_python() in singleton_overloads
         ):
-            i_overload = [line.strip() for line in element_lines].index("@overload")
-            element_lines = element_lines[:i_overload] + element_lines[i_overload + 1 :]
+            stripped_lines = [line.strip() for line in element_lines]
+            if "@overload" in stripped_lines:  # (the stub output may be empty)
+                i_overload = stripped_lines.index("@overload")
+                element_lines = element_lines[:i_overload] + element_lines[i_overload + 1 :]
         result.append((elem, element_lines))
 
     return result
-- 
2.43.0


From 694f0b112f5500b4ad6e472ffe095583c78e93e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 72/85] fix: the explicit specializations of template functions
 are not published (they have no name of their own)

---
 src/litgen/internal/adapted_types/adapted_function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index bf5fd96..761de52 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -329,6 +329,11 @@ class AdaptedFunction(AdaptedElement):
             #    (hence, it is not the "real" declaration, and it was already published)
             return False
 
+        if cpp_function.is_template() and len(cpp_function.template.parameter_list.parameters) == 0:
+            # This is an explicit specialization (`template<> int f<int>(int)`): it has no name of its own.
+            # (it may be published by an instantiation of the template, via options.fn_template_options)
+            return False
+
         # Exclude if one param or the return type of the function is an unhandled template type
         for param in cpp_function.parameter_list.parameters:
             if options.class_template_options.shall_exclude_type(param.decl.cpp_type):
-- 
2.43.0


From 6cb06630553eaec1b04fdd52e4c96d1b9cb8d993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 73/85] fix: the template class specializations are ignored
 with a warning (they have no name in python)

---
 src/litgen/internal/adapted_types/adapted_class.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0a1a0a5..22440e7 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -382,6 +382,11 @@ class AdaptedClass(AdaptedElement):
 
     def __init__(self, lg_context: LitgenContext, class_: CppStruct):
         super().__init__(lg_context, class_)
+        if "<" in self.class_name_python():
+            raise SrcmlcppException(
+                f"The template specialization {class_.class_name} is ignored: it has no name in python. "
+                "You might need to set LitgenOptions.type_replacements"
+            )
         self.adapted_public_children = []
         self._init_fill_public_children()
         self._group_overloaded_methods()
-- 
2.43.0


From b8e61ba0db10e7696d0cf2b08d672e0180f4b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 74/85] fix: pimpl_my_class removes the longest suffix of the
 implementation class name

---
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index f48e4ce..494b8c8 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -68,7 +68,8 @@ class PimplMyClass:
 
     def _published_class_name(self) -> str:
         impl_class_name = self._impl_class_name()
-        for suffix in self.options.pimpl_suffixes:
+        # the longest suffix is removed ("impl" is also a suffix of "Pimpl")
+        for suffix in sorted(self.options.pimpl_suffixes, key=len, reverse=True):
             if impl_class_name.endswith(suffix):
                 return impl_class_name[: -len(suffix)]
         raise Exception(f"pImpl class name needs to end with a suffix among {self.options.pimpl_suffixes}")
-- 
2.43.0


From 53ace0c774d8fba46c9ad05e68c167753e3ebd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 75/85] fix: pimpl_my_class writes no default value in the
 definitions of the glue code

---
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index 494b8c8..c384766 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -108,7 +108,7 @@ class PimplMyClass:
         replacements.impl_name = self.options.impl_member_name
         replacements.return_type = cpp_function.return_type.str_code() if cpp_function.has_return_type() else ""
         replacements.method_name = cpp_function.function_name
-        replacements.params_list = cpp_function.parameter_list.str_code()
+        replacements.params_list = self._str_params_without_default_values(cpp_function)
         replacements.maybe_return = (
             "" if (not cpp_function.has_return_type() or cpp_function.return_type.is_void()) else "return "
         )
@@ -120,6 +120,14 @@ class PimplMyClass:
         r = code_utils.process_code_template(template, replacements, replacements_by_line)
         return r
 
+    @staticmethod
+    def _str_params_without_default_values(cpp_function: CppFunctionDecl) -> str:
+        # C++ peculiarity: default values are not allowed for the implementation, only for decl
+        parameter_list = copy.deepcopy(cpp_function.parameter_list)
+        for parameter in parameter_list.parameters:
+            parameter.decl.initial_value_code = ""
+        return parameter_list.str_code()
+
     @staticmethod
     def _remove_published_incompatible_specifiers(cpp_function: CppFunctionDecl) -> CppFunctionDecl:
         unwanted_specifiers = ["inline", "constexpr"]
@@ -169,7 +177,7 @@ class PimplMyClass:
 
         replacements = Munch()
         replacements._i_ = self.options.indent_str
-        replacements.param_list = str(cpp_constructor.parameter_list)
+        replacements.param_list = self._str_params_without_default_values(cpp_constructor)
         replacements.class_published = self._published_class_name()
         replacements.class_impl = self._impl_class_name()
         replacements.impl_name = self.options.impl_member_name
-- 
2.43.0


From b22901e2e392dc5f022285e78ae1992b5e792bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 76/85] fix: pimpl_my_code looks for a class whose name ends
 with a pimpl suffix

---
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index c384766..75e679a 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -305,8 +305,10 @@ def pimpl_my_code(
     if srcmlcpp_options is None:
         srcmlcpp_options = SrcmlcppOptions()
     cpp_unit = srcmlcpp.code_to_cpp_unit(srcmlcpp_options, code)
-    all_structs = cpp_unit.all_structs_recursive()
-    return None if len(all_structs) == 0 else pimpl_my_class(all_structs[0], pimpl_options)
+    for struct in cpp_unit.all_structs_recursive():
+        if any(struct.class_name.endswith(suffix) for suffix in pimpl_options.pimpl_suffixes):
+            return pimpl_my_class(struct, pimpl_options)
+    return None
 
 
 def pimpl_my_file(
-- 
2.43.0


From 497d0051b7d90428f6a24a355cbfc79f6b6f78cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 77/85] fix: py::vectorize applies to the complete function
 pointer, and only where there is one

---
 .../internal/adapted_types/adapted_function.py   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 761de52..d288a22 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -451,7 +451,9 @@ class AdaptedFunction(AdaptedElement):
         match_fn_name = code_utils.does_match_regex_or_matcher(
             self.options.fn_vectorize__regex, self.cpp_element().function_name
         )
-        r = match_ns_name and match_fn_name and not self.is_vectorize_impl
+        # py::vectorize applies to a C++ function or method, which is neither adapted nor called by a lambda
+        can_vectorize = not self.is_constructor() and not self._pydef_flag_needs_lambda()
+        r = match_ns_name and match_fn_name and can_vectorize and not self.is_vectorize_impl
         return r
 
     #  ============================================================================================
@@ -647,12 +649,7 @@ class AdaptedFunction(AdaptedElement):
         function_name = self.cpp_element().function_name_with_specialization()
         function_scope_prefix = self._pydef_str_parent_cpp_scope_prefix()
 
-        if self.is_vectorize_impl:
-            # not available in nanobind
-            assert self.options.bind_library == BindLibraryType.pybind11
-            replace_tokens.function_pointer = f"py::vectorize({function_scope_prefix}{function_name})"
-        else:
-            replace_tokens.function_pointer = f"{function_scope_prefix}{function_name}"
+        replace_tokens.function_pointer = f"{function_scope_prefix}{function_name}"
 
         if self.is_method():
             replace_tokens.function_pointer = "&" + replace_tokens.function_pointer
@@ -692,6 +689,11 @@ class AdaptedFunction(AdaptedElement):
                         f"{py}::overload_cast<{overload_types}>({replace_tokens.function_pointer})"
                     )
 
+        if self.is_vectorize_impl:
+            # not available in nanobind
+            assert self.options.bind_library == BindLibraryType.pybind11
+            replace_tokens.function_pointer = f"py::vectorize({replace_tokens.function_pointer})"
+
         # fill pydef_end_arg_docstring_returnpolicy
         replace_tokens.pydef_end_arg_docstring_returnpolicy = self._pydef_end_arg_docstring_returnpolicy()
 
-- 
2.43.0


From f0499baecdbc46973f9260e583fbcdb88550ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 78/85] fix: a return value policy in a comment may be followed
 by some punctuation

---
 src/litgen/internal/adapted_types/adapted_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index d288a22..627e574 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import cast
 
@@ -972,7 +973,8 @@ class AdaptedFunction(AdaptedElement):
         for rv_policy_token in rv_policy_tokens:
             maybe_return_policy = find_return_policy_in_comments(rv_policy_token)
             if maybe_return_policy is not None:
-                self.return_value_policy = maybe_return_policy
+                # (keep only the identifier: it may be followed by some punctuation)
+                self.return_value_policy = re.split(r"\W", maybe_return_policy)[0]
                 break
 
         # Take options.fn_force_return_policy_reference_for_pointers into account
-- 
2.43.0


From b206233fc1e7c86b9db35deeb4549b8881a38109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 79/85] fix: all the keep_alive and call_guard of a comment are
 used, for constructors also

---
 .../adapted_types/adapted_function.py         | 76 ++++++++-----------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 627e574..1173baa 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -571,21 +571,8 @@ class AdaptedFunction(AdaptedElement):
         else:
             replace_lines.maybe_return_value_policy = None
 
-        replace_lines.maybe_keep_alive = self._pydef_fill_keep_alive_from_function_comment()
-        replace_lines.maybe_call_guard = self._pydef_fill_call_guard_from_function_comment()
-
-        # Add gil_scoped_release call guard if regex matches
-        if code_utils.does_match_regex_or_matcher(
-            self.options.fn_add_gil_scoped_release_guard__regex, self.cpp_element().function_name
-        ):
-            py_ns = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
-            gil_guard = f"{py_ns}::call_guard<{py_ns}::gil_scoped_release>()"
-            if replace_lines.maybe_call_guard is None:
-                replace_lines.maybe_call_guard = gil_guard
-            else:
-                # If a call guard is already present from comments, append the new one.
-                # Note: pybind11 supports multiple call guards.
-                replace_lines.maybe_call_guard += f", {gil_guard}"
+        replace_lines.maybe_keep_alive = self._pydef_keep_alive()
+        replace_lines.maybe_call_guard = self._pydef_call_guard()
 
         # Process template
         code = code_utils.process_code_template(
@@ -817,7 +804,9 @@ class AdaptedFunction(AdaptedElement):
         template_code = code_utils.unindent_code("""
             .def({py}::init<{arg_types}>(){maybe_comma}{location}
             {_i_}{maybe_pyarg}{maybe_comma}
-            {_i_}{maybe_docstring}""")[1:]
+            {_i_}{maybe_docstring}{maybe_comma}
+            {_i_}{maybe_keep_alive}{maybe_comma}
+            {_i_}{maybe_call_guard}""")[1:]
 
         function_infos = self.cpp_element()
 
@@ -850,6 +839,8 @@ class AdaptedFunction(AdaptedElement):
         lines_replacements = {
             "maybe_docstring": maybe_docstring,
             "maybe_pyarg": maybe_pyarg,
+            "maybe_keep_alive": self._pydef_keep_alive(),
+            "maybe_call_guard": self._pydef_call_guard(),
         }
         lines_to_remove = {token: None for token, value in lines_replacements.items() if value is None}
         code = code_utils.replace_in_string_remove_line_if_none(template_code, lines_to_remove)
@@ -995,35 +986,34 @@ class AdaptedFunction(AdaptedElement):
         if options.fn_return_force_policy_reference__callback:
             options.fn_return_force_policy_reference__callback(self)
 
-    def _pydef_fill_call_policy_from_function_comment(self, call_policy_token: str) -> str | None:
+    def _pydef_call_policies_from_function_comment(self, call_policy: str) -> list[str]:
+        """Returns the template arguments of all the occurrences of a call policy in the comments of the function
+        For example, ["1, 2", "1, 3"] for `// py::keep_alive<1, 2>(), py::keep_alive<1, 3>()`
+        """
         function_comment = self.cpp_element().cpp_element_comments.comments_as_str()
-        if call_policy_token in function_comment:
-            idx = function_comment.index(call_policy_token)
-            comment_rest = function_comment[idx:]
-            if "()" in comment_rest:
-                idx2 = comment_rest.index("()")
-                keep_alive_code = comment_rest[: idx2 + 2]
-                return keep_alive_code
-        return None
-
-    def _replace_py_or_nb_namespace(self, s: str | None) -> str | None:
-        if s is None:
+        policies_args = re.findall(rf"\b(?:py|nb)::{call_policy}<([^()]*?)>\(\)", function_comment)
+        py_ns = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
+        return [re.sub(r"\b(?:py|nb)::", f"{py_ns}::", policy_args) for policy_args in policies_args]
+
+    def _pydef_keep_alive(self) -> str | None:
+        py_ns = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
+        keep_alives = self._pydef_call_policies_from_function_comment("keep_alive")
+        if len(keep_alives) == 0:
             return None
-        if self.options.bind_library == BindLibraryType.nanobind:
-            s = s.replace("py::", "nb::")
-        else:
-            s = s.replace("nb::", "py::")
-        return s
-
-    def _pydef_fill_keep_alive_from_function_comment(self) -> str | None:
-        v_py = self._pydef_fill_call_policy_from_function_comment("py::keep_alive")
-        v_nb = self._pydef_fill_call_policy_from_function_comment("nb::keep_alive")
-        return self._replace_py_or_nb_namespace(v_py or v_nb)
-
-    def _pydef_fill_call_guard_from_function_comment(self) -> str | None:
-        v_py = self._pydef_fill_call_policy_from_function_comment("py::call_guard")
-        v_nb = self._pydef_fill_call_policy_from_function_comment("nb::call_guard")
-        return self._replace_py_or_nb_namespace(v_py or v_nb)
+        return ", ".join(f"{py_ns}::keep_alive<{args}>()" for args in keep_alives)
+
+    def _pydef_call_guard(self) -> str | None:
+        py_ns = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
+        guards = self._pydef_call_policies_from_function_comment("call_guard")
+        # Add gil_scoped_release call guard if regex matches
+        if code_utils.does_match_regex_or_matcher(
+            self.options.fn_add_gil_scoped_release_guard__regex, self.cpp_element().function_name
+        ):
+            guards.append(f"{py_ns}::gil_scoped_release")
+        if len(guards) == 0:
+            return None
+        # pybind11 and nanobind accept only one call_guard, but it may contain several guards
+        return f"{py_ns}::call_guard<{', '.join(guards)}>()"
 
     def _pydef_str_parent_cpp_scope(self) -> str:
         if self.is_method():
-- 
2.43.0


From 0fd084ef368e40786b389c8e02bd865a9299921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 80/85] fix: functions with {} default values keep their
 comments, location and signature

---
 src/srcmlcpp/internal/cpp_types_parse.py              |  6 +++++-
 src/srcmlcpp/internal/fix_brace_init_default_value.py | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 439dd2e..808f118 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -861,7 +861,7 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
     last_ignored_child: Optional[CppElementAndComment] = None
 
     children: list[CppElementAndComment] = srcml_comments.get_children_with_comments(element)
-    for _i, child_c in enumerate(children):
+    for i, child_c in enumerate(children):
         global_progress_bars().set_current_line(_PROGRESS_BAR_TITLE_SRCML_PARSE, child_c.start().line)
 
         child_tag = child_c.tag()
@@ -885,6 +885,10 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
                 macro_maybe_constructor = parse_unprocessed(options, child_c, inout_block_content)
                 fixed_ctor = fix_brace_init_default_value.change_macro_to_constructor(options, macro_maybe_constructor)
                 if fixed_ctor is not None:
+                    # the end of line comment of the constructor follows the ";", which srcML parsed as an empty_stmt
+                    if i + 1 < len(children) and children[i + 1].tag() == "empty_stmt":
+                        eol_comment = children[i + 1].cpp_element_comments.comment_end_of_line
+                        fixed_ctor.cpp_element_comments.comment_end_of_line = eol_comment
                     block_children.append(fixed_ctor)
             elif child_tag == "decl":
                 cpp_decl = parse_decl(options, child_c, inout_block_content, None)
diff --git a/src/srcmlcpp/internal/fix_brace_init_default_value.py b/src/srcmlcpp/internal/fix_brace_init_default_value.py
index 72e60b3..bb4b449 100644
--- a/src/srcmlcpp/internal/fix_brace_init_default_value.py
+++ b/src/srcmlcpp/internal/fix_brace_init_default_value.py
@@ -104,6 +104,7 @@ def _rewrite_decl_if_suspicious_fn_decl(decl_stmt: CppDeclStatement) -> Optional
         return None
 
     hacked_decl = copy.deepcopy(decl)
+    hacked_decl.srcml_xml = copy.deepcopy(decl.srcml_xml)  # the deepcopy of a wrapper shares the xml of the original
     arg_lists = hacked_decl.wrapped_children_with_tag("argument_list")
     if len(arg_lists) == 0:
         return None
@@ -157,11 +158,13 @@ def change_decl_stmt_to_function_decl_if_suspicious(
     if fixed_code is None:
         return None
     else:
-        fixed_cpp_unit = srcmlcpp.code_to_cpp_unit(options, fixed_code)
+        fixed_cpp_unit = srcmlcpp.code_to_cpp_unit(options, fixed_code, decl_stmt.filename)
         fixed_functions = fixed_cpp_unit.all_functions_recursive()
         assert len(fixed_functions) == 1
         fixed_function = fixed_functions[0]
         _change_fn_params_default_to_brace_init(fixed_function)
+        fixed_function.srcml_xml = decl_stmt.srcml_xml  # i.e. the original code and location
+        fixed_function.cpp_element_comments = decl_stmt.cpp_decls[0].cpp_element_comments
         return fixed_function
 
 
@@ -180,7 +183,7 @@ def change_macro_to_constructor(options: srcmlcpp.SrcmlcppOptions, macro: CppUnp
         return None
 
     fixed_macro_code = "void blah" + macro_code[len(class_name) :] + ";"
-    fixed_cpp_unit = srcmlcpp.code_to_cpp_unit(options, fixed_macro_code)
+    fixed_cpp_unit = srcmlcpp.code_to_cpp_unit(options, fixed_macro_code, macro.filename)
     fixed_functions = fixed_cpp_unit.all_functions_recursive()
     if len(fixed_functions) != 1:
         macro.raise_exception(f"Expected one function, got {len(fixed_functions)}")
@@ -188,7 +191,8 @@ def change_macro_to_constructor(options: srcmlcpp.SrcmlcppOptions, macro: CppUnp
     fixed_function.function_name = class_name
     fixed_function.return_type.typenames = []
 
-    fixed_constructor = CppConstructorDecl(fixed_function, fixed_function.cpp_element_comments)
+    fixed_constructor = CppConstructorDecl(fixed_function, macro.cpp_element_comments)
     fixed_constructor._parameter_list = fixed_function.parameter_list
     fixed_constructor.function_name = class_name
+    fixed_constructor.srcml_xml = macro.srcml_xml  # i.e. the original code and location
     return fixed_constructor
-- 
2.43.0


From 16b4a58adc9f6a1a51cc2e28c508b75805a09999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 81/85] fix: the stub of iterable classes is indented as the
 stub, not as the C++ code

---
 src/litgen/internal/adapted_types/adapted_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 22440e7..6ca4c1c 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -649,7 +649,7 @@ class AdaptedClass(AdaptedElement):
             )
 
             replacements = munch.Munch()
-            replacements._i_ = self.options._indent_cpp_spaces()
+            replacements._i_ = self.options._indent_python_spaces()
             replacements.iterator_class_name_python = self.options.class_iterables_infos.python_iterable_type(
                 self.class_name_python()
             )
-- 
2.43.0


From b23624c84d9c491ae22bb37eeb981b2cdde8be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 82/85] fix: the location of an auto-generated constructor is
 the one of its class

---
 src/litgen/internal/adapted_types/adapted_class.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 6ca4c1c..9a54684 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1480,6 +1480,10 @@ class PythonNamedConstructorHelper:
                 if part.scope_name in original_types:
                     part.scope_type = original_types[part.scope_name]
 
+            # It has no location of its own: use the location of its class
+            ctor_qualified.filename = self.adapted_class.cpp_element().filename
+            ctor_qualified.srcml_xml.attrib.update(self.adapted_class.cpp_element().srcml_xml.attrib)
+
             return ctor_qualified
 
         return make_cpp_constructor()
-- 
2.43.0


From f3a4572bf4c5e0394d88b2e493028710e32784d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:12 +0000
Subject: [PATCH 83/85] fix: the stubs of the boxed types and of the void
 constructors use the requested indentation

---
 src/litgen/internal/adapted_types/adapted_class.py | 5 +++--
 src/litgen/litgen_generator.py                     | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 9a54684..b783316 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1595,11 +1595,12 @@ class PythonNamedConstructorHelper:
             r = code_utils.unindent_code(
                 '''
             def __init__(self) -> None:
-                """Autogenerated default constructor"""
-                pass
+            {_i_}"""Autogenerated default constructor"""
+            {_i_}pass
             ''',
                 flag_strip_empty_lines=True,
             )
+            r = r.replace("{_i_}", self.adapted_class.options._indent_python_spaces())
             return r
         if not self.flag_generate_named_ctor_params():
             return ""
diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index cf1b805..771cacd 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -207,6 +207,9 @@ class LitgenGenerator:
         standalone_options = LitgenOptions()
         standalone_options.cpp_indent_size = self.options().cpp_indent_size
         standalone_options.cpp_indent_with_tabs = self.options().cpp_indent_with_tabs
+        standalone_options.python_indent_size = self.options().python_indent_size
+        standalone_options.python_ident_with_tabs = self.options().python_ident_with_tabs
+        standalone_options.python_max_line_length = self.options().python_max_line_length
         standalone_options.bind_library = self.options().bind_library
 
         adapted_unit = code_to_adapted_unit_in_context(LitgenContext(standalone_options), boxed_types_cpp_code)
-- 
2.43.0


From c15b0ee2b54cbe55a4a90503e787f0abe8ee6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 84/85] fix: void const* is announced as Any in the stub, as
 const void* is

---
 src/litgen/internal/cpp_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 381e51d..210c1b3 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -866,7 +866,7 @@ def standard_type_replacements() -> RegexReplacementList:
     \bstd::optional<(.*?)> -> Optional[\1]
     \bstd::(?:unordered_)?map<\s*(.*?)\s*,\s*(.*?)\s*> -> Dict[\1, \2]
 
-    \bvoid\s*\* -> Any
+    \bvoid\s*(?:\bconst\s*)?\* -> Any
     \bvoid\b -> None
 
     \bpy::array\b -> np.ndarray
-- 
2.43.0


From b3bd15028502c17c40a78dbf2f78fab8cc4a0985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:52 +0000
Subject: [PATCH 85/85] fix: a type written on several lines is translated in
 the stub

---
 src/litgen/internal/cpp_to_python.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 210c1b3..8d7b088 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -192,7 +192,8 @@ def _namespaces_to_python(lg_context: LitgenContext, python_str: str) -> str:
 
 def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     options = lg_context.options
-    r = options.class_template_options.specialize_types_in_code(cpp_type_str, options.type_replacements)
+    r = re.sub(r"\s+", " ", cpp_type_str)  # a type may be written on several lines
+    r = options.class_template_options.specialize_types_in_code(r, options.type_replacements)
     r = re.sub(r"\b(static|constexpr|inline)\s+", "", r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
-- 
2.43.0

