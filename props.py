"""Which harness entries decide which property, within which bounds."""

COMMON = [
    "Code: optimised LLVM IR (rustc -O2, fat LTO, overflow checks on) of the harness, stuart_core / stuart, its dependencies and std, regenerated from /repo on every run",
    "The symbolic executor (engine/), Z3 4.8.12, rustc/LLVM and the libc model are trusted; explored paths are sampled and replayed natively, every counterexample is replayed before it is reported",
    "Allocation never fails",
]


def E(entry, bounds, covers=(), tiers="qt", crate="core", **k):
    t = tuple({"q": "quick", "t": "thorough"}[c] for c in tiers)
    return dict(crate=crate, entry=entry, bounds=bounds, covers=list(covers), tiers=t, **k)


PROPS = {}


def P(pid, entries, assumptions=()):
    PROPS[pid] = {"entries": entries, "assumptions": list(assumptions)}


pe = ["parsed", "error"]
P("C01", [
    E("h_c01_html_6", "HTML template: every 7-bit text of 6 bytes", pe, "q"),
    E("h_c01_html_8", "HTML template: every 7-bit text of 8 bytes", pe, "t"),
    E("h_c01_utf8_2", "HTML text, escaped text or tag: 2 characters, each 7-bit or one of 14 others", pe, "q"),
    E("h_c01_utf8_4", "HTML text, escaped text or tag: 4 characters, each 7-bit or one of 14 others", pe, "t"),
    E("h_c01_tag_5", "`{{` followed by every 7-bit text of 5 bytes", pe, "q"),
    E("h_c01_tag_7", "`{{` followed by every 7-bit text of 7 bytes", pe, "t"),
    E("h_c01_call_4", "`{{f(` followed by every 7-bit text of 4 bytes, f each built-in", pe, "q"),
    E("h_c01_call_6", "`{{f(` followed by every 7-bit text of 6 bytes, f each built-in", pe, "t"),
    E("h_c01_callu_2", "`{{begin(` followed by 2 characters, each 7-bit or one of 14 others", ["error"], "q"),
    E("h_c01_callu_4", "`{{begin(` followed by 4 characters, each 7-bit or one of 14 others", ["error"], "t"),
    E("h_c01_args_5", "argument text of 5 characters of `\"a=$,) 1.`", pe, "q"),
    E("h_c01_args_7", "argument text of 7 characters of `\"a=$,) 1.`", pe, "t"),
    E("h_c01_md_6", "markdown file: every 7-bit text of 6 bytes", pe, "q"),
    E("h_c01_md_9", "markdown file: every 7-bit text of 9 bytes", pe, "t"),
    E("h_c01_front_5", "`---` line followed by every 7-bit text of 5 bytes", pe, "q"),
    E("h_c01_front_7", "`---` line followed by every 7-bit text of 7 bytes", pe, "t"),
    E("h_c01_front2_5", "an open frontmatter pair followed by 5 characters that matter", pe, "q"),
    E("h_c01_front2_7", "an open frontmatter pair followed by 7 characters that matter", pe, "t"),
    E("h_c01_dashes", "frontmatter of up to 300 lines", pe),
    E("h_c01_large", "HTML templates of up to 70 000 bytes: hundreds of arguments, tags, newlines or escapes, names and strings of that length; one arbitrary 7-bit byte at the end", ["parsed", "error"]),
    E("h_c01_mdlarge", "markdown files of up to 70 000 bytes: hundreds of pairs, long keys, values and bodies; one arbitrary 7-bit byte at the end", ["parsed", "error"]),
])
P("C02", [
    E("h_c02_plain_6", "every 7-bit text of 6 bytes without a tag", ["plain"], "q"),
    E("h_c02_plain_9", "every 7-bit text of 9 bytes without a tag", ["plain"], "t"),
    E("h_c02_utf8_4", "every UTF-8 text of 4 bytes without a tag", ["plain"], "q"),
    E("h_c02_utf8_6", "every UTF-8 text of 6 bytes without a tag", ["plain"], "t"),
    E("h_c02_dense_8", "8 characters of `{}\\` and newline", ["plain"], "q"),
    E("h_c02_dense_11", "11 characters of `{}\\` and newline", ["plain"], "t"),
    E("h_c02_around_3", "3 7-bit bytes before and after a tag", ["around"], "q"),
    E("h_c02_around_4", "4 7-bit bytes before and after a tag", ["around"], "t"),
    E("h_c02_aroundd_4", "4 characters of `{}\\` and newline before and after a tag", ["around"], "q"),
    E("h_c02_aroundd_6", "6 characters of `{}\\` and newline before and after a tag", ["around"], "t"),
    E("h_c02_aroundu_2", "2 bytes of UTF-8 before and after a tag", ["around"], "q"),
    E("h_c02_aroundu_4", "4 bytes of UTF-8 before and after a tag", ["around"], "t"),
    E("h_c02_esctag_3", "3 characters, then an escaped `{{` directly followed by a tag", ["escaped"], "q"),
    E("h_c02_esctag_6", "6 characters, then an escaped `{{` directly followed by a tag", ["escaped"], "t"),
    E("h_c02_page_3", "whole build: 3 characters of page text, 2 of root text", ["page"], "q"),
    E("h_c02_page_4", "whole build: 4 characters of page text, 2 of root text", ["page"], "t"),
    E("h_c02_large", "255 to 70 000 bytes of text before or after a tag, with 2 characters of `{}\\a` next to it", ["around", "plain"]),
    E("h_c02_many", "17 to 300 tags with text between them", ["around"]),
    E("h_c02_edges_5", "any 5 bytes of UTF-8 without `{` and `\\`, at either end of a page's section or of its template", ["page"]),
    E("h_c02_edges_7", "the same with 7 bytes", ["page"], "t"),
    E("h_c02_odd", "2 of 26 special characters (byte order mark, controls, joiners, direction marks, entities, ...) in every place of page, `md.html`, `root.html` and frontmatter", ["page"]),
])
P("C03", [
    E("h_c03_tokens_2", "2 characters of `\\n\\rx`, or also 6 other separators, before the first of two tags with blanks inside, one less between them", ["tokens"], "q"),
    E("h_c03_tokens_3", "3 characters of `\\n\\rx`, or also 6 other separators, before the first of two tags with blanks inside, one less between them", ["tokens"], "t"),
    E("h_c03_error_2", "2 characters of `\\n\\rx`, or also 6 other separators, between and after tags, 11 malformed tags", ["error"], "q"),
    E("h_c03_error_4", "4 characters of `\\n\\rx`, or also 6 other separators, between and after tags, 11 malformed tags", ["error"], "t"),
    E("h_c03_mderror_1", "the same in a markdown file with 0-2 frontmatter pairs, 1 character", ["error"], "q"),
    E("h_c03_mderror_2", "the same in a markdown file with 0-2 frontmatter pairs, 2 characters", ["error"], "t"),
    E("h_c03_front_3", "a malformed frontmatter line among 3", ["front"], "q"),
    E("h_c03_front_6", "a malformed frontmatter line among 6", ["front"], "t"),
    E("h_c03_process_2", "whole build: 9 failing tags in page, root, md.html and markdown body, 2 characters around", ["process"], "q"),
    E("h_c03_process_3", "whole build: 9 failing tags in page, root, md.html and markdown body, 3 characters around", ["process"], "t"),
    E("h_c03_large", "tags and errors after 256 to 70 000 lines, with line breaks around them", ["tokens", "error"]),
    E("h_c03_frontlarge", "frontmatter of 254 to 5000 lines, wrong at its end or followed by an error", ["front"]),
    E("h_c03_proclarge", "processing errors after 254 to 70 000 lines", ["process"]),
])
c4 = ["unspecified", "malformed", "exact"]
P("C04", [
    E("h_c04_args_4", "every 7-bit argument text of 4 bytes", c4, "q"),
    E("h_c04_args_5", "every 7-bit argument text of 5 bytes", c4, "t"),
    E("h_c04_dense_6", "6 characters of `\"$a=,)1 -`", c4, "q"),
    E("h_c04_dense_8", "8 characters of `\"$a=,)1 -`", c4, "t"),
    E("h_c04_two_2", "two arguments of every kind, 2 characters each", c4[1:], "q"),
    E("h_c04_two_3", "two arguments of every kind, 3 characters each", c4[1:], "t"),
    E("h_c04_three", "three arguments of every kind, 1 character each", c4[1:]),
    E("h_c04_int_4", "integers with 4 free digits around the 32-bit limits", c4[1:]),
    E("h_c04_utf8_4", "string literals of 4 bytes of UTF-8", ["string"], "q"),
    E("h_c04_utf8_6", "string literals of 6 bytes of UTF-8", ["string"], "t"),
    E("h_c04_name_4", "every function name of 4 7-bit bytes", ["known", "unknown"][1:], "q"),
    E("h_c04_name_6", "every function name of 6 7-bit bytes", ["known", "unknown"][1:], "t"),
    E("h_c04_near", "every name within one edit of a built-in or plugin function", ["known", "unknown", "documented"]),
    E("h_c04_sig_2", "every built-in with up to 2 arguments of 6 kinds", ["documented", "wrong"], "q"),
    E("h_c04_sig_3", "every built-in with up to 3 arguments of 6 kinds", ["documented", "wrong"], "t"),
    E("h_c04_large", "calls of 17 to 900 arguments, strings of up to 48 000 characters, long names and blanks", ["exact", "malformed"]),
])

re_ = ["rendered", "error"]
P("C05", [
    E("h_c05_path_3", "5 prefixes followed by 3 path characters of `.abln013` into nested data of every kind", re_, "q"),
    E("h_c05_path_5", "5 prefixes followed by 5 path characters of `.abln013` into nested data of every kind", re_, "t"),
    E("h_c05_value_4", "string values of 4 bytes of UTF-8", ["rendered"], "q"),
    E("h_c05_value_7", "string values of 7 bytes of UTF-8", ["rendered"], "t"),
    E("h_c05_name_3", "names of 3 characters of `abAB_0` against two defined ones", re_[1:], "q"),
    E("h_c05_name_5", "names of 5 characters of `abAB_0` against two defined ones", re_[1:], "t"),
    E("h_c05_scope_3", "every arrangement of up to 3 of 9 scoping constructs and uses", re_, "q"),
    E("h_c05_scope_4", "every arrangement of up to 4 of 9 scoping constructs and uses", re_, "t"),
    E("h_c05_index", "arrays of 17 to 300 items, any index near the ends or beyond", ["rendered", "error"]),
    E("h_c05_wide", "objects of 17 to 300 keys with a common beginning, keys of 300 characters", ["rendered", "error"]),
    E("h_c05_deep", "paths of 8 to 64 components", ["rendered", "error"]),
    E("h_c05_frames", "8 to 33 scopes between a definition and its use, up to 300 definitions in one scope", ["rendered"]),
    E("h_c05_long", "strings of 255 to 140 000 bytes", ["rendered"]),
    E("h_c05_odd_4", "strings of any 4 bytes of UTF-8, or 2 of 26 special characters, in an object, an array or alone", ["value"], "q"),
    E("h_c05_odd_6", "the same with 6 bytes", ["value"], "t"),
])
P("C06", [
    E("h_c06_num", "every pair of 64-bit floating point numbers except NaN, all 6 operators", ["branch"]),
    E("h_c06_lit_1", "every 64-bit number against integer literals with 1 free digit, either side, all operators", ["branch"], "q"),
    E("h_c06_lit_2", "every 64-bit number against integer literals with 2 free digits, either side, all operators", ["branch"], "t"),
    E("h_c06_str_2", "strings of up to 2 bytes, literal or variable, all operators", ["branch"], "q"),
    E("h_c06_str_3", "strings of up to 3 bytes, literal or variable, all operators", ["branch"], "t"),
    E("h_c06_kinds", "operands of 14 kinds, all operators", re_),
    E("h_c06_defined", "ifdefined on 11 kinds of path", ["rendered"]),
    E("h_c06_nest_3", "every nesting of up to 3 blocks, taken or not, with or without else", ["rendered"], "q"),
    E("h_c06_nest_5", "every nesting of up to 5 blocks, taken or not, with or without else", ["rendered"], "t"),
    E("h_c06_long", "strings of 15 to 5000 characters that differ only in length or at their end, every comparison", ["branch"]),
    E("h_c06_deep", "8 to 64 nested blocks, one of which is not taken", ["rendered"]),
    E("h_c06_many", "17 to 300 blocks within a branch that is taken, or not", ["rendered"]),
    E("h_c06_utf8_4", "two strings of any 4 bytes of UTF-8, equal, with a suffix or in upper case; variable or literal", ["equal", "different"], "q"),
    E("h_c06_utf8_5", "the same with 5 bytes", ["equal", "different"], "t"),
])
P("C07", [
    E("h_c07_select_2", "0-2 items, skip and limit absent, 0-2 or huge, 3 orders, 3 kinds of source", ["rendered"], "q"),
    E("h_c07_select_4", "0-4 items, skip and limit absent, 0-4 or huge, 3 orders, 3 kinds of source", ["rendered"], "t"),
    E("h_c07_sort_3", "3 items with keys of 1-2 symbolic characters `0-z`, missing or no string, 3 orders", ["rendered"], "q"),
    E("h_c07_sort_4", "4 items with keys of 1-2 symbolic characters `0-z`, missing or no string, 3 orders", ["rendered"], "t"),
    E("h_c07_sorted_3", "3 items, symbolic keys (item, nested, frontmatter) with skip and limit", ["rendered"], "q"),
    E("h_c07_sorted_4", "4 items, symbolic keys (item, nested, frontmatter) with skip and limit", ["rendered"], "t"),
    E("h_c07_nest_3", "every arrangement of up to 3 loops and blocks, 0-3 iterations each", ["rendered"], "q"),
    E("h_c07_nest_4", "every arrangement of up to 4 loops and blocks, 0-3 iterations each", ["rendered"], "t"),
    E("h_c07_source", "12 kinds of source", re_),
    E("h_c07_dir", "a directory with pages, data and subdirectories, both listing orders", ["rendered"]),
    E("h_c07_count", "17 to 300 items of an array or pages of a directory, every skip and limit around 256 and 65536, reversed or not", ["rendered"]),
    E("h_c07_sorted", "5 to 300 items sorted by keys many of which are equal or missing; one arbitrary key", ["rendered"]),
    E("h_c07_keys", "keys of 7 to 5000 characters that differ at their end", ["rendered"]),
    E("h_c07_deep", "3 to 9 nested loops", ["rendered"]),
    E("h_c07_names_3", "directory names of up to 3 bytes of any UTF-8, beside another; `.md` next to `.MD`, `.mdx` and `md`", ["loop"]),
    E("h_c07_names_4", "the same with 4 bytes", ["loop"], "t"),
])
P("C08", [
    E("h_c08_labels_2", "begin, end and insert labels of 1-2 characters of `sS:x`, nested or not", ["inserted", "labels differ"], "q"),
    E("h_c08_labels_3", "begin, end and insert labels of 1-3 characters of `sS:x`, nested or not", ["inserted", "labels differ"], "t"),
    E("h_c08_tags_3", "every sequence of up to 3 of 13 tags in page, root.html, md.html or markdown body", ["balanced", "unbalanced"], "q"),
    E("h_c08_tags_4", "every sequence of up to 4 of 13 tags in page, root.html, md.html or markdown body", ["balanced", "unbalanced"], "t", time=1200),
    E("h_c08_sections_3", "every balanced sequence of up to 3 of 13 tags, inserted by 4 root templates", re_, "q"),
    E("h_c08_sections_4", "every balanced sequence of up to 4 of 13 tags, inserted by 4 root templates", re_, "t"),
    E("h_c08_bytes_4", "section text of 4 characters, inserted twice", ["rendered"], "q"),
    E("h_c08_bytes_6", "section text of 6 characters, inserted twice", ["rendered"], "t"),
    E("h_c08_many", "17 to 300 sections, side by side or within another", ["rendered", "error"]),
    E("h_c08_deep", "8 to 64 nested sections", ["rendered"]),
    E("h_c08_long", "a section of 255 to 140 000 bytes with a label of up to 301 characters", ["rendered", "rejected"]),
    E("h_c08_utf8_2", "labels of any 2 bytes of UTF-8, the same, another or with a suffix", ["inserted", "labels differ"], "q"),
    E("h_c08_utf8_4", "the same with 4 bytes", ["inserted", "labels differ"], "t"),
])
P("C09", [
    E("h_c09_utf8_4", "strings of up to 4 bytes of UTF-8, limits 0-6", ["excerpt"], "q"),
    E("h_c09_utf8_6", "strings of up to 6 bytes of UTF-8, limits 0-8", ["excerpt"], "t"),
    E("h_c09_tags_4", "up to 4 characters dense in angle brackets, limits 0-5", ["excerpt"], "q"),
    E("h_c09_tags_6", "up to 6 characters dense in angle brackets, limits 0-7", ["excerpt"], "t"),
    E("h_c09_kinds", "variables of 11 kinds", ["string", "other"]),
    E("h_c09_large", "texts of 255 to 70 000 bytes, limits around 256, 65536, their length and 2 147 483 647", ["excerpt"]),
])
P("C10", [
    E("h_c10_count_3", "0 to 1999 words followed by every 7-bit text of 3 bytes", ["short", "long"], "q"),
    E("h_c10_count_6", "0 to 1999 words followed by every 7-bit text of 6 bytes", ["short", "long"], "t"),
    E("h_c10_unicode_2", "0 or 399 words followed by 2 characters, white space outside ASCII included", ["short", "long"], "q"),
    E("h_c10_unicode_3", "0 or 399 words followed by 3 characters, white space outside ASCII included", ["short", "long"], "t"),
    E("h_c10_kinds", "variables of 11 kinds", ["string", "other"]),
    E("h_c10_large", "25 398 to 65 737 words", ["long"]),
])
P("C17", [
    E("h_c17_value_3", "JSON values of up to 3 nodes, strings of 2 symbolic characters", ["value"], "q"),
    E("h_c17_value_4", "JSON values of up to 4 nodes, strings of 2 symbolic characters", ["value"], "t"),
    E("h_c17_text_4", "JSON texts: 4 characters that matter, 3 contexts", ["value", "rejected"], "q"),
    E("h_c17_text_6", "JSON texts: 6 characters that matter, 3 contexts", ["value", "rejected"], "t"),
    E("h_c17_path", "19 paths, 3 of them naming a JSON file", ["bound", "refused"]),
    E("h_c17_near_3", "file names of 3 characters of `ab/A_` before `.json`", re_, "q"),
    E("h_c17_near_4", "file names of 4 characters of `ab/A_` before `.json`", ["error"], "t"),
    E("h_c17_scope_3", "every arrangement of up to 3 imports, uses and blocks", re_, "q"),
    E("h_c17_scope_4", "every arrangement of up to 4 imports, uses and blocks", re_, "t"),
    E("h_c17_large", "arrays and objects of 17 to 300 members, strings of up to 60 000 characters, 17 to 64 levels", ["value"]),
    E("h_c17_far", "a file in 8 to 20 nested directories, beside 300 others", ["rendered", "error"]),
    E("h_c17_names_3", "file names of up to 3 bytes of any UTF-8, beside others", ["bound", "refused"]),
    E("h_c17_names_4", "the same with 4 bytes", ["bound", "refused"], "t"),
])
P("C11", [
    E("h_c11_merge_3", "two trees of up to 3 nodes of depth 2, 3 names, both orders", ["merged", "conflict"], "q"),
    E("h_c11_merge_4", "two trees of up to 4 nodes of depth 2, 3 names, both orders", ["merged", "conflict"], "t"),
    E("h_c11_deep_2", "two trees of up to 2 nodes of depth 3 below a common directory", ["merged", "conflict"], "q"),
    E("h_c11_deep_3", "two trees of up to 3 nodes of depth 3 below a common directory", ["merged", "conflict"], "t"),
    E("h_c11_disk", "a built site of 3 pages and every subset of 5 static files, at the top or below", ["merged", "conflict"]),
    E("h_c11_path_4", "every path of 4 characters of `ab./A` into a fixed tree", ["found", "nothing"], "q"),
    E("h_c11_path_6", "every path of 6 characters of `ab./A` into a fixed tree", ["found", "nothing"], "t"),
    E("h_c11_large", "trees of 17 to 300 files at depth 0 to 20, one of which may meet another", ["merged", "conflict"]),
    E("h_c11_names_4", "names of up to 4 bytes of any UTF-8, the same, others or in upper case; files and directories", ["merged", "conflict"], "q"),
    E("h_c11_names_6", "the same with 6 bytes", ["merged", "conflict"], "t"),
])
P("C12", [
    E("h_c12_name_2", "one file, page or static, names with 2 free characters around the special ones, all settings, 4 previous outputs", ["saved"], "q"),
    E("h_c12_name_3", "one file, page or static, names with 3 free characters around the special ones, all settings, 4 previous outputs", ["saved"], "t"),
    E("h_c12_meet_2", "every tree of up to 2 of 9 files and 2 directories, all settings", ["saved", "refused"], "q"),
    E("h_c12_meet_3", "every tree of up to 3 of 9 files and 2 directories, all settings", ["saved", "refused"], "t"),
    E("h_c12_site", "a whole site: every subset of 5 content files and one static file, all settings, 4 previous outputs, both listing orders, 2 arbitrary bytes of contents", ["saved"]),
    E("h_c12_large", "17 to 300 files at depth 0 to 20, over an output of 300 old ones", ["saved"]),
    E("h_c12_long", "a file of 255 to 70 000 bytes, arbitrary at its ends", ["saved"]),
    E("h_c12_disk_2", "a content or static file whose name is 1 or 2 bytes of any UTF-8 and one of 16 suffixes, in a directory named likewise, with 0 to 4 arbitrary bytes: from disk to disk", ["saved"]),
    E("h_c12_disk_3", "the same with up to 3 bytes", ["saved"], "t"),
])
P("C14", [
    E("h_c14_nearest", "3 nested directories, every placement of root.html and md.html, page in each, html or md, both listing orders", re_),
    E("h_c14_sibling_2", "a page of 5 kinds among up to 2 siblings of 7 kinds, in every position, both listing orders", re_, "q"),
    E("h_c14_sibling_3", "a page of 5 kinds among up to 3 siblings of 7 kinds, in every position, both listing orders", re_, "t"),
    E("h_c14_deep", "a page in 9 to 20 nested directories, templates in any of them", ["rendered"]),
    E("h_c14_wide", "17 to 300 directories side by side, one with a template of its own", ["rendered"]),
    E("h_c14_alike", "any name one edit from `root.html` or `md.html`", ["rendered"]),
    E("h_c14_names_3", "directory names of up to 3 bytes of any UTF-8", ["rendered"], "q"),
    E("h_c14_names_4", "the same with 4 bytes", ["rendered"], "t"),
])
P("C15", [
    E("h_c15_free_5", "6 beginnings followed by 5 characters of `k:\" -\\n\\r`, with or without a closing line", ["open", "parsed", "error"], "q"),
    E("h_c15_free_7", "6 beginnings followed by 7 characters of `k:\" -\\n\\r`, with or without a closing line", ["open", "parsed", "error"], "t"),
    E("h_c15_pair_3", "a pair with 3 arbitrary 7-bit characters in or around key and value", ["parsed", "error"], "q"),
    E("h_c15_pair_4", "a pair with 4 arbitrary 7-bit characters in or around key and value", ["parsed", "error"], "t"),
    E("h_c15_utf8_4", "values and bodies of 4 bytes of UTF-8", ["parsed"], "q"),
    E("h_c15_utf8_6", "values and bodies of 6 bytes of UTF-8", ["parsed"], "t"),
    E("h_c15_lines_3", "every sequence of up to 3 of 9 kinds of lines", ["parsed", "error"], "q"),
    E("h_c15_lines_5", "every sequence of up to 5 of 9 kinds of lines", ["parsed", "error"], "t"),
    E("h_c15_page_3", "whole build: a field of 3 characters of `ab:\"-{\\ `", ["page"], "q"),
    E("h_c15_page_5", "whole build: a field of 5 characters of `ab:\"-{\\ `", ["page"], "t"),
    E("h_c15_large", "17 to 5000 pairs, keys, values, blanks or bodies of such a length", ["parsed"]),
])
P("C16", [
    E("h_c16_name_2", "project name and author of 2 bytes of UTF-8", ["metadata"], "q"),
    E("h_c16_name_4", "project name and author of 4 bytes of UTF-8", ["metadata"], "t"),
    E("h_c16_number", "numbers of JSON files around the limits of 64-bit floats", ["number", "rejected"]),
    E("h_c16_text_1", "frontmatter, JSON string or file name of 1 character, 7-bit or one of 14 others", ["markdown", "json", "name"], "q"),
    E("h_c16_text_2", "frontmatter, JSON string or file name of 2 characters, 7-bit or one of 14 others", ["markdown", "json", "name"], "t"),
    E("h_c16_tree_2", "every tree of up to 2 of 6 kinds of nodes, static files merged or not, on and off", ["tree", "off"], "q"),
    E("h_c16_tree_3", "every tree of up to 3 of 6 kinds of nodes, static files merged or not, on and off", ["tree", "off"], "t"),
    E("h_c16_large", "17 to 300 files at depth 0 or 20 with long values", ["tree"]),
    E("h_c16_names_3", "names of files, directories, frontmatter fields and JSON fields of 3 bytes of any UTF-8", ["metadata"]),
    E("h_c16_names_5", "the same with 5 bytes", ["metadata"], "t"),
])
P("C13", [
    E("h_c13_read", "any single failing read, open, stat, listing or path resolution of a build of 2 sites, 6 errors", ["error", "no fault"]),
    E("h_c13_write", "any single failing call of a save over an existing output (files, directories, a link), 2 sites, 6 errors", ["error", "no fault"]),
    E("h_c13_meta", "any single failing call of writing the metadata, 6 errors", ["error", "no fault"]),
    E("h_c13_project", "the whole program on a project with static and temporary files and scripts: any single failing call, a failing script before or after, a template error, a conflict; with and without metadata", ["built", "output kept", "post-build script failed", "failure while saving"], crate="bin"),
])
P("C24", [
    E("h_c24_body_2", "markdown bodies of up to 2 of 14 pieces of text and tags, nested once", re_, "q"),
    E("h_c24_body_3", "markdown bodies of up to 3 of 14 pieces of text and tags, nested once", re_, "t"),
    E("h_c24_text_2", "markdown text of 2 characters dense in markup", ["rendered"], "q"),
    E("h_c24_text_3", "markdown text of 3 characters dense in markup", ["rendered"], "t"),
    E("h_c24_listing", "two listings of two pages, before and after them, both listing orders", ["rendered"]),
    E("h_c24_name_3", "names of 3 characters of `a.md-h` before `.md`", ["named"], "q"),
    E("h_c24_name_5", "names of 5 characters of `a.md-h` before `.md`", ["named"], "t"),
    E("h_c24_large", "bodies of hundreds of lines, paragraphs or list items, up to 72 000 bytes", ["rendered"]),
    E("h_c24_many", "17 to 300 pages and a listing of them", ["rendered"]),
    E("h_c24_odd", "2 of 26 special characters in a paragraph, a heading, a list or next to a tag", ["rendered"]),
])
P("C25", [
    E("h_c25_var_2", "a variable with a name of 2 characters and a value of 2 arbitrary bytes among 3 others, read in 5 places", ["value", "undefined"], "q"),
    E("h_c25_var_4", "a variable with a name of 2 characters and a value of 4 arbitrary bytes among 3 others, read in 5 places", ["value", "undefined"], "t"),
    E("h_c25_stuart_2", "STUART_ENV unset, set to 2 bytes of UTF-8, set twice or not text; 3 build environments, read in 5 places", ["value"], "q"),
    E("h_c25_stuart_4", "STUART_ENV unset, set to 4 bytes of UTF-8, set twice or not text; 3 build environments, read in 5 places", ["value"], "t"),
    E("h_c25_large", "17 to 300 variables, names and values of up to 70 000 bytes", ["value"]),
    E("h_c25_names_4", "names of 4 letters, digits or `_`, after nothing, `STUART_`, `RUST_`, `PATH`, `SECRET_` or `A_TOKEN`", ["value", "undefined"]),
])
P("C26", [
    E("h_c26_types_1", "1 plugin with 1 parser of 1-2 of 6 extensions, 3 results, files of 6 names and 2 arbitrary bytes", ["plugin", "copied", "error"], "q"),
    E("h_c26_types_2", "2 plugins with 1-2 parsers of 1-2 of 6 extensions, 3 results, files of 6 names and 2 arbitrary bytes", ["plugin", "copied", "error"], "t"),
    E("h_c26_order", "3 parsers of one or both of 2 types in 1 to 3 plugins, files of 6 names and 2 arbitrary bytes", ["plugin", "copied"]),
    E("h_c26_result", "every result of a plugin, files of 6 names and 2 arbitrary bytes", ["plugin", "copied", "error"]),
    E("h_c26_large", "17 to 300 parsers, one of them of as many types, a file of up to 70 000 bytes", ["plugin"]),
])

# ---- the program ----
P("C18", [
    E("h_c18_settings", "every subset and value of the three settings in two orders, sections in both orders, author or none", ["loaded"], crate="bin"),
    E("h_c18_names_4", "names and authors of up to 4 characters in 5 notations of strings (escapes included), 4 layouts of the manifest", ["loaded"], "q", crate="bin"),
    E("h_c18_names_6", "names and authors of up to 6 characters in 5 notations of strings (escapes included), 4 layouts of the manifest", ["loaded"], "t", crate="bin"),
    E("h_c18_wrong", "manifests with any of 6 keys of any of 11 wrong kinds, without a name, or of 18 malformed texts", ["rejected"], crate="bin"),
    E("h_c18_large", "names of 255 to 140 000 bytes, manifests of thousands of lines", ["loaded"], crate="bin"),
])
P("C19", [
    E("h_c19_uri_4", "URIs of a slash and up to 4 characters of `sxe/.%25fF:`, 3 spellings of the directory", ["file", "redirect", "missing"], "q", crate="bin"),
    E("h_c19_uri_6", "URIs of a slash and up to 6 characters of `sxe/.%25fF:`, 3 spellings of the directory", ["file", "redirect", "missing"], "t", crate="bin"),
    E("h_c19_pieces_3", "URIs of up to 3 of 12 names, separators and escapes", ["file", "redirect", "missing"], "q", crate="bin"),
    E("h_c19_pieces_5", "URIs of up to 5 of 12 names, separators and escapes", ["file", "redirect", "missing"], "t", crate="bin"),
    E("h_c19_bytes_3", "URIs of a slash, perhaps a percent sign, and 3 7-bit bytes", ["missing"], "q", crate="bin"),
    E("h_c19_bytes_4", "URIs of a slash, perhaps a percent sign, and 4 7-bit bytes", ["missing"], "t", crate="bin"),
    E("h_c19_script_3", "contents of 3 pieces around `</body>` or arbitrary bytes, 3 types", ["file"], "q", crate="bin"),
    E("h_c19_script_4", "contents of 4 pieces around `</body>` or arbitrary bytes, 3 types", ["file"], "t", crate="bin"),
    E("h_c19_large", "7 sizes up to 70000 bytes, 5 places of `</body>`", ["file"], crate="bin"),
], ["The request handler is encoded; the HTTP server itself (humphrey: sockets, threads, request parsing) is not. URIs containing `..` or `:` may also be refused."])
P("C21", [
    E("h_c21_name_1", "names of 1 character (ASCII without NUL and slash)", ["created"], "q", crate="bin"),
    E("h_c21_name_2", "names of 2 characters (ASCII without NUL and slash)", ["created"], "q", crate="bin"),
    E("h_c21_name_3", "names of 3 characters (ASCII without NUL and slash)", ["created"], "q", crate="bin"),
    E("h_c21_name_4", "names of 4 characters (ASCII without NUL and slash)", ["created"], "t", crate="bin"),
    E("h_c21_where", "11 names beyond ASCII, of several components or absolute, 3 outcomes of Git", ["created", "author", "repository"], crate="bin"),
    E("h_c21_author_2", "Git users and e-mails of 2 bytes (any byte), either missing", ["created", "author"], "q", crate="bin"),
    E("h_c21_author_3", "Git users and e-mails of 3 bytes (any byte), either missing", ["created", "author"], "t", crate="bin"),
    E("h_c21_exists", "7 names that are taken or cannot be created", ["refused"], crate="bin"),
    E("h_c21_fault", "every single failing write, 2 error numbers", ["reported", "created"], crate="bin"),
    E("h_c21_build", "the project created, built in 2 ways", ["built"], crate="bin"),
    E("h_c21_large", "names of 101 to 255 characters, an author of up to 70 000", ["created"], crate="bin"),
], ["Git is a model that answers as chosen; command lines are parsed by the program's own parser."])
P("C22", [
    E("h_c22_clean", "every presence of dist (with or without a link out of it), _build and metadata.json, in or outside a project, no fault or one at any call (2 error codes)", ["cleaned", "not a project", "fault reported"], crate="bin"),
    E("h_c22_large", "products of 17 to 300 files, at depth 0 to 20", ["cleaned"], crate="bin"),
])
P("C23", [
    E("h_c23_contents_3", "file contents of 3 characters that matter or 3 bytes of UTF-8, long lines, 8 lines and 6 columns", ["quoted", "not quoted"], "q", crate="bin"),
    E("h_c23_contents_4", "file contents of 4 characters that matter or 4 bytes of UTF-8, long lines, 8 lines and 6 columns", ["quoted", "not quoted"], "t", crate="bin"),
    E("h_c23_kinds_2", "27 kinds of error, names of up to 2 of 7 characters", ["quoted", "not quoted"], "q", crate="bin"),
    E("h_c23_kinds_3", "27 kinds of error, names of up to 3 of 7 characters", ["quoted", "not quoted"], "t", crate="bin"),
    E("h_c23_file", "9 paths, 8 lines, 6 columns, a fault at any read", ["quoted", "fault"], crate="bin"),
    E("h_c23_other_2", "11 errors without a position, texts of up to 2 characters", ["printed"], "q", crate="bin"),
    E("h_c23_other_3", "11 errors without a position, texts of up to 3 characters", ["printed"], "t", crate="bin"),
    E("h_c23_large", "a line 255 to 70 000 lines down, or of such a length", ["quoted"], crate="bin"),
], ["Columns up to 4096."])
sc = ["built", "exit code", "signal", "not started"]
P("C20", [
    E("h_c20_run_1", "4 script names absent or a file (1 also a directory) among 6 other files, 5 ways each to end, every exit code, 3 environments, 2 outputs, 3 spellings of the manifest, 2 orders", sc, "q", crate="bin"),
    E("h_c20_run_4", "4 script names absent, a file or a directory among 6 other files, 5 ways each to end, every exit code, 3 environments, 2 outputs, 3 spellings of the manifest, 2 orders", sc, "t", crate="bin"),
    E("h_c20_none", "4 projects without scripts", ["built"], crate="bin"),
    E("h_c20_large", "17 to 300 files in `scripts`, a script that prints up to 140 000 bytes", ["built", "failed"], crate="bin"),
], ["Starting a program (posix_spawn, pipes, wait) is a model that gives every script the outcome chosen; the scripts directory can be read."])

P("C31", [
    E("h_c31_rebuild_1", "a build, one of 20 changes, a build; 2 listing orders", ["built", "failed"], "q", crate="bin"),
    E("h_c31_rebuild_2", "2 changes of 20 with a build between them or not; 2 listing orders", ["built", "failed"], "q", crate="bin"),
    E("h_c31_rebuild_3", "3 changes of 20 with builds between them or not; 2 listing orders", ["built", "failed"], "t", crate="bin"),
    E("h_c31_large", "17 to 300 pages and static files, one of each removed and one added between two builds", ["built"], crate="bin"),
], ["No scripts, no plugins; the file system is a model."])

P("C28", [
    E("h_c28_history_1", "1 of 13 changes while the server waits, 3 clients of which any go away, 4 output directories, own writes reported early or late", ["settled", "up to date", "failing project"], "q", crate="bin"),
    E("h_c28_history_2", "2 of 13 changes while the server waits, 3 clients of which any go away, 4 output directories, own writes reported early or late", ["settled", "up to date", "failing project"], "q", crate="bin"),
    E("h_c28_history_3", "3 of 13 changes while the server waits, 3 clients of which any go away, 4 output directories, own writes reported early or late", ["settled", "up to date", "failing project"], "t", crate="bin"),
    E("h_c28_during_1", "1 of 13 changes while the server waits and 1 while it builds", ["settled", "up to date"], "q", crate="bin", opts={"maxviol": 1000000}),
    E("h_c28_during_2", "2 of 13 changes while the server waits and 1 while it builds", ["settled", "up to date"], "t", crate="bin", opts={"maxviol": 1000000}),
    E("h_c28_many_2", "17 or 33 clients, 2 changes of a page, of the clients there are, or of those that go away", ["settled", "up to date"], "q", "bin"),
    E("h_c28_many_3", "17 or 33 clients, 3 such changes", ["settled", "up to date"], "t", "bin"),
], ["Other threads act when the watcher waits for an event, and at the start and the end of a build; events are those notify reports; sockets and scripts are models."])

P("C27", [
    E("h_c27_sources_1", "1 source of 24 kinds, 2 names of the dependency, 4 earlier states of its directory, 2 orders of dependencies", ["no source loads", "first source", "dropped"], crate="bin"),
    E("h_c27_sources_2", "2 sources of 24 kinds each, 2 names of the dependency, 4 earlier states of its directory, 2 orders of dependencies", ["no source loads", "first source", "later source", "dropped"], crate="bin"),
    E("h_c27_text_4", "every list of sources of 4 of 8 characters, with files or directories of those names", ["loads", "does not", "skipped"], "q", crate="bin"),
    E("h_c27_text_6", "every list of sources of 6 of 8 characters, with files or directories of those names", ["loads", "does not", "skipped"], "t", crate="bin"),
    E("h_c27_sources_3", "3 sources of 24 kinds each, 2 names of the dependency, 4 earlier states of its directory, 2 orders of dependencies", ["no source loads", "first source", "later source", "dropped"], "t", crate="bin"),
], ["The loader of shared objects, Git, Cargo and the network are models: a library is a function of the harness, and what each program does to the files is modelled. HTTPS downloads and JavaScript plugins are excluded."])

js = dict(crate="js")
P("C29", [
    E("h_c29_args_2", "an argument from a JSON file: a scalar, or an array or object of up to 3 of them (and those nested once) with the keys a, b, __proto__, length, 1, 0, 10, toString and \u00e9; numbers 0, -0, -1.5, 0.1, 2^32, 1e21; strings with characters of 1 to 4 bytes or any printable one; two literal arguments and a path", ["called"], "q", **js),
    E("h_c29_args_3", "the same, nested once more", ["called"], "t", **js),
    E("h_c29_undefined", "4 calls with and without variables that are not defined", ["defined", "undefined"], **js),
    E("h_c29_set_2", "STUART.set of a scalar, an array or object (nested once) with undefined, null, symbols, BigInts, holes, getters, itself, the same object twice, any 7-bit character; the variable undefined before or defined further out", ["set", "undefined"], "q", **js),
    E("h_c29_set_3", "the same, nested once more", ["set", "undefined"], "t", **js),
    E("h_c29_seen_2", "what `$w`, `$w.a.b` and for loops print of a variable set to 2 characters of `a{}\\\" \n$<`, also in a block", ["seen"], "q", **js),
    E("h_c29_seen_4", "the same with 4 characters", ["seen"], "t", **js),
    E("h_c29_get", "STUART.get of 13 variables and paths, called as a method, destructured, kept from the first call; in a page, a loop, after it and for a markdown page", ["got"], **js),
    E("h_c29_result_2", "12 kinds of results, texts of any 2 7-bit characters, in 5 places (twice, in branches, in loops, after another function)", ["called"], "q", **js),
    E("h_c29_result_4", "the same with 4 characters", ["called"], "t", **js),
    E("h_c29_throw", "10 functions which throw or misuse STUART, with calls after them", ["after"], **js),
    E("h_c29_apart", "two plugins with the same names of functions and global variables, one of them also used twice, built once or twice, with one or two contexts", ["apart"], **js),
    E("h_c29_module", "26 modules: unreadable, not compiling, not linking, throwing, without an export, with odd exports, functions and getters; with and without a next source", ["loads", "fails", "next"], **js),
    E("h_c29_large", "arrays and objects of 17 to 300 members, strings of up to 120 000 bytes, 17 to 48 levels: to a plugin, back to a variable and to the plugin again", ["called"], crate="js"),
    E("h_c29_many", "17 to 300 functions of as many arguments, a result of up to 60 000 bytes", ["called"], crate="js"),
], ["V8 and the JavaScript of plugins are models: the crate `v8` is real, the C++ library behind its C interface is harness/js/src/vm.rs (values, objects with their order of keys and prototypes, handles and their scopes, contexts, exceptions, modules), and functions of plugins are code of the harness acting on its values"])

da = dict(crate="date")
P("C30", [
    E("h_c30_date_2", "dates in 10 notations: the year 2000, 12 months, every day", ["printed"], "q", **da),
    E("h_c30_date_4", "dates in 10 notations: 16 years, 12 months, every day, 3 clocks, 2 time zones of the machine", ["printed"], "t", **da),
    E("h_c30_year_2", "5 days of every year from 1900 to 2099, in 3 notations", ["printed"], "q", **da),
    E("h_c30_year_4", "5 days of every year from 0 to 9999, in 10 notations", ["printed"], "t", **da),
    E("h_c30_dots", "4 dates in 2 notations with dots, 3 clocks, 2 time zones of the machine", ["printed"], **da),
    E("h_c30_time_2", "times in 15 notations: every hour with one minute and the other way round, 2 seconds, 3 dates", ["printed"], "q", **da),
    E("h_c30_time_4", "times in 15 notations: every hour and minute, 2 seconds, 3 dates", ["printed"], "t", **da),
    E("h_c30_time_6", "times in 15 notations: every hour, minute and second, 3 dates", ["printed"], "t", **da),
    E("h_c30_offset_2", "offsets in 9 notations: every hour of the time and of the offset, 4 zones, 3 dates", ["printed"], "q", **da),
    E("h_c30_offset_4", "the same with every minute of both", ["printed"], "t", **da),
    E("h_c30_unix_2", "every second of the 1000 in which each of 4 days begins, in seconds, milliseconds and nanoseconds", ["printed"], "q", **da),
    E("h_c30_unix_4", "every second of the 1000 in which each of 360 days between 2001 and 2286 begins, in seconds, milliseconds and nanoseconds", ["printed"], "t", **da),
    E("h_c30_specifier_1", "every 7-bit character as a specifier after any printable one, 4 dates", ["printed", "rejected"], "q", **da),
    E("h_c30_specifier_2", "the same, with one of 5 specifiers after it", ["printed", "rejected"], "t", **da),
    E("h_c30_modifier", "16 formats with modifiers or other text", ["printed"], **da),
    E("h_c30_refused_3", "24 strings which are no dates, 3 characters of `aPmM :-/.,TZ+`, 6 other values, 9 formats which are none", ["rejected"], "q", **da),
    E("h_c30_refused_5", "24 strings which are no dates, 5 characters of `aPmM :-/.,TZ+`, 6 other values, 9 formats which are none", ["rejected"], "t", **da),
    E("h_c30_again", "one call in a loop over 2 or 3 of 7 strings, 2 formats", ["printed"], **da),
    E("h_c30_calls", "9 pages which call it for members, twice, and in branches", ["called"], **da),
], ["Dates whose meaning the notation leaves open (two-digit years, dates without a year or day, leap seconds, a zone without a time) are excluded"])

P("C32", [
    E("h_c32_build", "9 ways to name the manifest (from 4 directories), 6 the output, 5 flags, 2 orders, 2 good and 3 broken projects", ["success", "failure"], crate="bin"),
    E("h_c32_other_0", "35 command lines which mean nothing or ask for help", ["success", "failure"], crate="bin"),
    E("h_c32_other_2", "every word of 2 7-bit characters instead of a command", ["failure"], crate="bin"),
    E("h_c32_other_3", "every word of 3 7-bit characters instead of a command", ["failure"], "t", crate="bin"),
    E("h_c32_command", "clean, new and bench with their options, in and outside of a project, with and without a fault", ["success", "failure"], crate="bin"),
], ["The arguments are those the process gets and the status is that it exits with; Git is a model."])

# ---- the plugins that come with it ----
P("C33", [
    E("h_c33_demo_2", "demo written in 4 ways, once or twice, between 3 texts of 2 7-bit characters", ["written"], "q", crate="demo"),
    E("h_c33_demo_3", "demo written in 4 ways, once or twice, between 3 texts of 3 7-bit characters", ["written"], "t", crate="demo"),
    E("h_c33_demo_args_3", "8 kinds of arguments (strings of 3 characters), with and without the plugin", ["arguments", "no plugin"], crate="demo"),
    E("h_c33_image_3", "files of 11 names, of 0 to 3 arbitrary bytes alone or 3 after the head of an image, 300 or 70 000 others; answers likewise or longer; one or two images", ["image", "other", "error"], "q", crate="imgopt"),
    E("h_c33_image_5", "files of 11 names, of 0 to 5 arbitrary bytes alone or 5 after the head of an image, 300 or 70 000 others; answers likewise or longer; one or two images", ["image", "other", "error"], "t", crate="imgopt"),
], ["What oxipng makes of an image is arbitrary: the library itself is not among the crates at hand and not part of the repository."])
