"""The properties, as data (see gen.py)."""

UNCLAIMED: list = []
REASONS: dict = {}
EXH = "Exhaustive within the stated bounds, on the real code through its public API; the oracle is an independent reference model. "

PROPS = [
    dict(
        id="C01",
        title="Reading and writing a recipe loses nothing",
        statement=(
            "Parsing a recipe and rendering it gives back the same text, byte for byte, when the recipe is in the layout the "
            "tool itself writes, and otherwise normalises the layout once (rendering again changes nothing). "
            "Every key, value, quoting-dependent type, trailing comment, selector, comment-only line, Jinja `{% set %}` "
            "variable, multiline block string and their order survives, for V0 and V1 recipes."
        ),
        over=["inputs"],
        quant="All recipes: any structure, scalar, comment, block string and variable in any position, any supported layout.",
        why="Tests round-trip some sample files; they do not cover every scalar/comment/structure combination in every position.",
        files=["parser/recipe_reader.py", "parser/_node.py", "parser/_utils.py", "parser/_types.py"],
        mech=[("line-based parser", "parser/recipe_reader.py"), ("tree renderer", "parser/recipe_reader.py"), ("quoting rules", "parser/_utils.py")],
        observe=["RecipeReader.render()", "RecipeParser.render()"],
        note=EXH + "Bounds: structures of up to 6 nodes (7 thorough), one closed dimension (scalars, comments, blocks, variables) at a time, realistic recipes.",
    ),
    dict(
        id="C02",
        title="What is read from a recipe is what the recipe says",
        statement=(
            "For every path in a recipe, reading the value, testing for its existence, listing the paths and finding values "
            "agree with the YAML data of the recipe, with types kept and sub-sections returned as objects and lists. "
            "A path that does not exist raises or returns the given default, and never another path's value. "
            "The whole-recipe object equals the YAML data in content and order."
        ),
        over=["inputs"],
        quant="All recipes and all paths into them, existing or not.",
        why="Tests read chosen paths of sample files; the property is about every path of every recipe.",
        files=["parser/recipe_reader.py", "parser/_traverse.py"],
        mech=[("path traversal with virtual indices", "parser/_traverse.py"), ("value reconstruction", "parser/recipe_reader.py")],
        observe=["get_value", "contains_value", "list_value_paths", "find_value", "render_to_object"],
        note=EXH + "PyYAML is trusted for the meaning of YAML.",
    ),
    dict(
        id="C03",
        title="Patches change a recipe exactly as RFC 6902 says",
        statement=(
            "After any sequence of add, remove, replace, move and copy operations, the rendered recipe holds exactly the data "
            "(with types and key order) that RFC 6902 prescribes, and every operation reports success exactly when the RFC says "
            "it succeeds, with list positions counted without the comment lines. "
            "Comments on, and comment lines between, the lines that are not a target of the operation stay where they are. "
            "`test` is true exactly if the value at the path equals the given one."
        ),
        over=["inputs", "histories"],
        quant="All recipes, all operations at all paths with all JSON values, and all sequences of them.",
        why="Tests apply a few dozen hand-picked patches to one or two files.",
        files=["parser/recipe_parser.py", "parser/recipe_reader.py", "parser/_traverse.py"],
        mech=[("patch operations", "parser/recipe_parser.py"), ("subtree generation", "parser/recipe_reader.py"), ("virtual to physical indices", "parser/_traverse.py")],
        observe=["patch", "render"],
        note=EXH + "The model's documented deviations from the RFC are listed in crm/rfc6902.py. Sequences of length 2, structures of up to 4 nodes (5 thorough).",
    ),
    dict(
        id="C04",
        title="A failed, invalid or test-only patch leaves no trace",
        statement=(
            "A patch that fails, and a `test`, leaves everything that can be observed about the recipe as it was: text, diff, "
            "modified flag, paths, values, comments, selectors and variables. "
            "A malformed patch raises the patch validation error and changes nothing, a successful one sets the modified flag, and the "
            "caller's patch object is never changed. "
            "Search-and-patch applies the patch to every match and to nothing else, and is successful only if every one of them is."
        ),
        over=["inputs", "histories"],
        quant="All recipes (fresh or edited), all failing, malformed and testing patches.",
        why="Tests check the return value of a few failing patches, not that nothing observable changed.",
        files=["parser/recipe_parser.py", "parser/types.py"],
        mech=[("schema validation", "parser/types.py"), ("validate before change", "parser/recipe_parser.py")],
        observe=["patch", "search_and_patch", "is_modified", "diff"],
        note=EXH + "Observation covers every public reader. Structures of up to 3 nodes (4 thorough) plus realistic recipes.",
    ),
    dict(
        id="C10",
        title="A selector selects exactly the platforms its expression is true for",
        statement=(
            "A selector built from platforms, operating systems and architectures with `not`, `and`, `or` and parentheses "
            "selects exactly the platforms for which it is true as a Python expression: `not` binds tightest, then `and`, then `or`. "
            "It applies to a query exactly if it selects the query's platform, or the query has none; terms that name no platform select none. "
            "Reading a selector changes nothing, it renders as it was written, and it equals another one exactly if schema and expression are the same."
        ),
        over=["inputs"],
        quant="All selector expressions, on all platforms, in both schema versions.",
        why="Tests evaluate about a dozen expressions, none with mixed operators of different precedence or parentheses.",
        files=["parser/selector_parser.py", "parser/platform_types.py", "parser/selector_query.py"],
        mech=[("expression parser", "parser/selector_parser.py"), ("set evaluation", "parser/selector_parser.py")],
        observe=["SelectorParser.get_selected_platforms", "does_selector_apply", "render", "__eq__"],
        note=EXH + "All 26 qualifiers with up to 2 terms; up to 4 terms (with negations) over representative ones; Python evaluates the reference.",
    ),
    dict(
        id="C11",
        title="Platform qualifiers stand for the platforms that their names say",
        statement=(
            "For every operating system and architecture, in any case and padding or as an enumeration member, the platforms it "
            "stands for are exactly those whose names say so: `unix` is linux and osx, `x86` is 32 and 64 bit, `x86_64` is 64 bit, "
            "everything else is what follows or precedes the dash. "
            "Unknown names stand for no platform. "
            "Later answers do not depend on earlier calls or on what callers do to the sets they were given."
        ),
        over=["inputs", "histories"],
        quant="All qualifiers in all spellings, and all pairs of calls.",
        why="Tests look up some of the qualifiers, once each.",
        files=["parser/platform_types.py"],
        mech=[("platform tables", "parser/platform_types.py")],
        observe=["get_platforms_by_os", "get_platforms_by_arch"],
        note=EXH + "Complete for the qualifiers; call histories of length 3.",
    ),
    dict(
        id="C05",
        title="What is read after edits is what re-reading the written recipe gives",
        statement=(
            "After any sequence of patches, selector, comment and variable edits, every reader of the recipe object (paths, values, "
            "found and searched paths, comments table, selectors and their paths, variables and their references, dependency and package paths, hash) "
            "answers as a fresh parse of the recipe's written text does. "
            "The recipe equals that fresh parse."
        ),
        over=["histories"],
        quant="All recipes and all sequences of edits.",
        why="Look-up tables and the tree can only go out of step after particular edit sequences; tests inspect a few of them.",
        files=["parser/recipe_parser.py", "parser/recipe_reader.py", "parser/_traverse.py"],
        mech=[("selector table rebuild", "parser/recipe_reader.py"), ("patch operations", "parser/recipe_parser.py"), ("tree renderer", "parser/recipe_reader.py")],
        observe=["all readers of RecipeReader"],
        note=EXH + "Every state of the real object is compared with a fresh parse. Depth 2 (3 thorough on the smallest), structures of up to 4 nodes (5 thorough), realistic recipes at depth 1.",
    ),
    dict(
        id="C06",
        title="Selector edits change the selector of the line they name, and nothing else",
        statement=(
            "Adding a selector to the line at a path replaces its comment, or with AND/OR merges with the selector that is there so that "
            "the result selects exactly the intersection/union of both; a comment without selector is kept after the new selector. "
            "Removing a selector returns it and leaves the rest of the comment; without one it returns None and changes nothing. "
            "Text, comments table and selector look-ups show exactly that change, paths that do not exist raise KeyError, malformed selectors raise ValueError, and failed edits change nothing."
        ),
        over=["inputs", "histories"],
        quant="All recipes, all lines, all existing comments and selectors, all sequences of selector edits.",
        why="Tests add a handful of selectors to one file and compare with golden text.",
        files=["parser/recipe_parser.py", "parser/recipe_reader.py", "parser/_traverse.py"],
        mech=[("selector merging", "parser/recipe_parser.py"), ("line comments shared by nodes", "parser/recipe_parser.py"), ("selector table", "parser/recipe_reader.py")],
        observe=["add_selector", "remove_selector", "get_selector_at_path", "contains_selector_at_path", "list_selectors", "get_selector_paths", "render"],
        note=EXH + "Model states are recipe documents; every model step is replayed on the real object and the whole text and tables compared. Structures of up to 4 nodes (5 thorough), sequences of 2 (3).",
    ),
    dict(
        id="C07",
        title="Comment edits change the comment of the line they name, and nothing else",
        statement=(
            "Adding a comment to the line at a path replaces the comment there and keeps the selector in front of it, whatever came before; "
            "the marker `#` is added if it is missing. "
            "The comments table lists, in order and by path, exactly the comments at the end of lines, without their selectors. "
            "Text, tables and look-ups show exactly that change; missing paths raise KeyError, empty comments and selectors ValueError, and failed edits change nothing."
        ),
        over=["inputs", "histories"],
        quant="All recipes, all lines, all existing and new comments, all sequences of comment and selector edits.",
        why="Tests add a few comments to one file.",
        files=["parser/recipe_parser.py", "parser/recipe_reader.py"],
        mech=[("comment merging", "parser/recipe_parser.py"), ("comments table", "parser/recipe_reader.py")],
        observe=["add_comment", "get_comments_table", "render"],
        note=EXH + "As C06. New comments do not contain brackets when the line has a selector, as brackets always denote selectors.",
    ),
    dict(
        id="C08",
        title="Variables and their substitution agree with Jinja, before and after edits",
        statement=(
            "The variables of a recipe are those of its `{% set %}` lines (V0) or `/context` (V1), in order, with literal values or kept as expressions; setting, deleting or patching one changes "
            "exactly that one, at once in all reads, substitutions and references, and in the written recipe. "
            "With substitution, each `{{ }}` (`${{ }}` in V1) of a known variable, with `lower`/`upper` filters or an index, or a sum of variables and literals on its own, is replaced wherever it stands by the text that Jinja gives, "
            "and a value that changed is typed as YAML reads it; anything else stays, as `${{ }}`, and strings without substitutions are not touched. "
            "The references to a variable are exactly the paths with strings in which a substitution uses that name."
        ),
        over=["inputs", "histories"],
        quant="All variables, expressions, strings around those, positions in the recipe; all sequences of edits.",
        why="Tests substitute a few dozen strings of two files; expressions combine freely, in any place, with any value, before and after edits.",
        files=["parser/recipe_reader.py", "parser/recipe_parser.py", "parser/_types.py"],
        mech=[("substitution", "parser/recipe_reader.py"), ("variables table", "parser/recipe_reader.py"), ("Jinja regular expressions", "parser/_types.py"), ("set_variable, del_variable", "parser/recipe_parser.py")],
        observe=["get_value(sub_vars=True)", "render_to_object(replace_variables=True)", "list_variables", "get_variable", "get_variable_references", "set_variable", "del_variable"],
        note=EXH + "jinja2 and PyYAML are the references. Edit sequences of length 3 (4 thorough) in lockstep with a model; every state compared with a fresh parse.",
    ),
    dict(
        id="C18",
        title="A fetched archive is complete, current and contained, or there is a FetchError",
        statement=(
            "HttpArtifactFetcher.fetch() either succeeds, and then path, SHA-256 and type describe exactly the archive that this call downloaded and the source directory has exactly its files, "
            "or raises FetchError, and then these queries raise FetchRequiredError; this holds for every HTTP answer (error status, lost or silent connection, truncated, corrupt or unknown data), write failure, and sequence of attempts. "
            "Nothing is written outside of the temporary directory of the fetcher, whatever names the archive contains, and that directory goes away with the fetcher."
        ),
        over=["inputs", "histories", "crash_points"],
        quant="All server answers, sequences of attempts, truncations and corruptions of the archive, points of write failure, member names.",
        why="Tests fetch two files from a mocked `requests.get`; the property is about failures at every byte and about what one attempt leaves for the next.",
        files=["fetcher/http_artifact_fetcher.py", "fetcher/base_artifact_fetcher.py", "utils/cryptography/hashing.py"],
        mech=[("download", "fetcher/http_artifact_fetcher.py"), ("extraction", "fetcher/http_artifact_fetcher.py"), ("fetch guard, temporary directory", "fetcher/base_artifact_fetcher.py"), ("hash_file", "utils/cryptography/hashing.py")],
        observe=["HttpArtifactFetcher.fetch", "get_path_to_source_code", "get_archive_sha256", "get_archive_type"],
        note=EXH + "Real HTTP over loopback. Sequences of 2 of 18 answers and 3 of 9 (3 and 4 thorough); every byte of small archives in 6 formats; file size limits as write faults.",
    ),
    dict(
        id="C19",
        title="Git sources are checked out at their tag, else revision, else branch",
        statement=(
            "GitArtifactFetcher.fetch() checks out the tag if there is one, else the revision, else the branch, else what the repository has checked out, for remote and local repositories; "
            "the source directory then has exactly the files of that commit, and the source repository is unchanged. "
            "If the repository or the target does not exist, fetch() raises FetchError and get_path_to_source_code() raises FetchRequiredError, as it does before fetch()."
        ),
        over=["inputs", "histories"],
        quant="All combinations of tag, revision and branch, existing or not, and kinds of repository.",
        why="The only test calls get_path_to_source_code() before fetch(); git is never run.",
        files=["fetcher/git_artifact_fetcher.py", "fetcher/base_artifact_fetcher.py"],
        mech=[("clone", "fetcher/git_artifact_fetcher.py"), ("checkout target", "fetcher/git_artifact_fetcher.py")],
        observe=["GitArtifactFetcher.fetch", "get_path_to_source_code"],
        note=EXH + "Real git repositories (remote ones over file://); 5 tags x 6 revisions x 5 branches x 6 kinds of repository.",
    ),
    dict(
        id="C20",
        title="bump-recipe updates version, build number and hashes, or changes nothing",
        statement=(
            "`bump-recipe` sets the version (the `version` variable if there is one, else `/package/version`), resets the build number to 0 (with `-b` and no new version: increments it; if it is missing: 0), and sets the SHA-256 of each HTTP source to the hash of the artifact that its URL names at the new version, "
            "each at its own source or in the hash variable that a single source uses; every other byte of the recipe stays. "
            "Each download is tried at most 5 times, waiting longer after each failure, and the result does not depend on the order in which parallel downloads finish. "
            "On any failure, or with `--dry-run`, the file stays as it was, and the exit code tells."
        ),
        over=["inputs", "schedules", "crash_points"],
        quant="All recipes and options, all patterns of failing downloads, all orders in which parallel downloads are answered.",
        why="Tests mock `requests.get`, so all sources give the same bytes at once, and compare some files.",
        files=["commands/bump_recipe.py", "fetcher/artifact_fetcher.py", "fetcher/http_artifact_fetcher.py", "parser/recipe_parser.py"],
        mech=[("parallel downloads", "commands/bump_recipe.py"), ("retries", "commands/bump_recipe.py"), ("hash variables", "commands/bump_recipe.py"), ("build number", "commands/bump_recipe.py")],
        observe=["bump-recipe command line: exit code, recipe file, output, downloads, waits"],
        note=EXH + "Controlled scheduler over the answers of a loopback server: all interleavings for up to 3 sources with up to 5 failures. Sleeping is recorded, not done.",
    ),
    dict(
        id="C29",
        title="Each source of a recipe becomes the fetcher that fetches it",
        statement=(
            "from_recipe() returns exactly one fetcher per supported source, keyed by the path of the source, named after the recipe (with the index of the source if there are several), of the kind that the source has, in V0 and V1 recipes; "
            "fetching it gets the artifact that the source names, with variables substituted: the URL (the first one, of mirrors), or the git repository at its tag, revision or branch. "
            "Unsupported sources raise FetchUnsupportedError, or are left out with `ignore_unsupported`; without sources the result is empty."
        ),
        over=["inputs"],
        quant="All source sections: lists of sources of all kinds, single sources, absent and empty sections.",
        why="Tests check the number and the class of the fetchers of ten files, and never fetch.",
        files=["fetcher/artifact_fetcher.py"],
        mech=[("from_recipe", "fetcher/artifact_fetcher.py"), ("key names per format", "fetcher/artifact_fetcher.py")],
        observe=["from_recipe", "BaseArtifactFetcher.fetch", "get_path_to_source_code"],
        note=EXH + "All lists of up to 2 of 13 kinds of source are fetched (3 thorough), of up to 3 constructed.",
    ),
    dict(
        id="C21",
        title="`patch` applies a whole patch file, or none of it",
        statement=(
            "When all operations of a patch file apply in order, `patch` writes the recipe with the data that RFC 6902 specifies and exits with 0. "
            "When any operation, wherever it stands, is malformed or does not apply, or the file is no patch, the recipe file keeps every byte and the exit code is not 0."
        ),
        over=["inputs"],
        quant="All recipe files and all patch files, with applicable, failing and malformed operations at all positions.",
        why="Tests run a handful of patch files, none of which fails after its first operation.",
        files=["commands/patch.py", "parser/recipe_parser.py"],
        mech=[("patch command", "commands/patch.py"), ("patch", "parser/recipe_parser.py")],
        observe=["patch command line: exit code and recipe file"],
        note=EXH,
    ),
    dict(
        id="C12",
        title="All dependencies of all packages of a recipe are listed, where they are",
        statement=(
            "get_all_dependencies() has exactly one entry for each dependency of each package, in every form that a section has (list, single value, V1 `if/then/else`, empty), with the dependency as it reads after substitution (a DependencyVariable if variables remain), its section, its selector, and the path at which get_value() finds it; "
            "outputs also get the top-level dependencies. "
            "get_package_names_to_path(), get_package_paths() and get_dependency_paths() agree with it; missing names raise KeyError, duplicates ValueError."
        ),
        over=["inputs"],
        quant="All V0 and V1 recipes, with any sections, comments, selectors, variables and outputs.",
        why="Tests compare the dependencies of six files, which have lists of plain dependencies.",
        files=["parser/recipe_reader_deps.py", "parser/recipe_reader.py", "parser/dependency.py"],
        mech=[("get_all_dependencies", "parser/recipe_reader_deps.py"), ("top-level dependencies", "parser/recipe_reader_deps.py"), ("section names", "parser/dependency.py"), ("dependency paths", "parser/recipe_reader.py")],
        observe=["get_all_dependencies", "get_package_names_to_path", "get_package_paths", "get_dependency_paths", "get_value"],
        note=EXH,
    ),
    dict(
        id="C13",
        title="Dependency edits change the dependency, and only that",
        statement=(
            "add_dependency() on V0 recipes replaces, skips, duplicates or overwrites dependencies of the same name (after substitution) as the conflict mode says, in the section that the path names, which is created if it is missing; otherwise it appends. "
            "The selector of the result is the new one, or that combined (AND, OR) with the old one of a replaced dependency; remove_dependency() removes the element at the path. "
            "They return whether the recipe changed: invalid and missing paths return False and change nothing; all other lines stay."
        ),
        over=["inputs", "histories"],
        quant="All V0 recipes, all dependencies, paths and modes, and all sequences of additions and removals.",
        why="Tests make one addition each to three files, and look at the edited section.",
        files=["parser/recipe_parser_deps.py", "parser/recipe_parser.py", "parser/dependency.py"],
        mech=[("add_dependency", "parser/recipe_parser_deps.py"), ("path validation", "parser/recipe_parser_deps.py"), ("selector preservation", "parser/recipe_parser_deps.py")],
        observe=["add_dependency", "remove_dependency", "render", "get_all_dependencies"],
        note=EXH + "Explicit-state: each history is run on the model and on the recipe in lock-step, and compared after every step.",
    ),
    dict(
        id="C14",
        title="A CBC variable has the value of its first entry that applies",
        statement=(
            "For every platform, get_cbc_variable_value() returns the value, with its YAML type, of the first entry of the variable whose selector applies to the platform or that has none; without a platform, of the first entry. "
            "If no entry applies it raises ValueError, and KeyError if there is no such variable, unless a default is given, which is returned instead, whatever it is. "
            "Exactly the lists of the file, except zip_keys, are variables."
        ),
        over=["inputs"],
        quant="All files, in all orders of entries, selectors and comments, and all platforms.",
        why="Tests query one file for two platforms.",
        files=["parser/cbc_parser.py", "parser/selector_parser.py"],
        mech=[("CbcParser", "parser/cbc_parser.py"), ("get_cbc_variable_value", "parser/cbc_parser.py")],
        observe=["CbcParser", "list_cbc_variables", "in", "get_cbc_variable_value"],
        note=EXH,
    ),
    dict(
        id="C17",
        title="License names match their license, and license expressions are left alone",
        statement=(
            "find_closest_license_match() returns an SPDX identifier of the database for every identifier and every full name in it, with or without surrounding white space (the one that is not deprecated, if several have the name); "
            "None for everything that contains AND, OR, WITH as words, or a comma, and is not itself a name; "
            "and otherwise an identifier whose identifier or name is nearest by difflib's ratio, or None if none reaches its threshold of 0.6."
        ),
        over=["inputs"],
        quant="All strings; all 652 licenses of the database.",
        why="Tests look up ten common misspellings.",
        files=["licenses/spdx_utils.py"],
        mech=[("find_closest_license_match", "licenses/spdx_utils.py"), ("matching table", "licenses/spdx_utils.py")],
        observe=["SpdxUtils.find_closest_license_match"],
        note=EXH,
    ),
    dict(
        id="C28",
        title="The recipe graph has exactly the dependencies of the recipes",
        statement=(
            "The build graph has an edge for each build and host dependency of each package, the test graph for each run dependency, and no others; plot() of a package draws what it depends on (or what needs it), directly and indirectly. "
            "The statistics count the recipe files, those that parse, the packages and the duplicates; recipes that cannot be read, or whose dependencies cannot, are listed and do not affect others, however many processes read them. "
            "The `graph` shell answers every command and ends with exit code 0 on `exit` and Ctrl-D."
        ),
        over=["inputs", "histories"],
        quant="All sets of recipes, all graphs, directions and packages, and all command sequences.",
        why="Tests check names and counts for a few files; plots and the shell are not tested.",
        files=["grapher/recipe_graph.py", "grapher/recipe_graph_from_disk.py", "grapher/types.py", "commands/graph.py"],
        mech=[("RecipeGraph", "grapher/recipe_graph.py"), ("reading from disk", "grapher/recipe_graph_from_disk.py"), ("graph shell", "commands/graph.py")],
        observe=["RecipeGraph", "RecipeGraphFromDisk", "plot", "get_package_stats", "contains_package_name", "graph command line"],
        note=EXH + "All 512 graphs on 3 packages; all command sequences up to a depth.",
    ),
    dict(
        id="C22",
        title="convert reports what became of each recipe, and writes only what it converted",
        statement=(
            "Converting a recipe or a directory of recipes writes exactly the converted recipes (or prints them), and never a file for a recipe that failed to be read, pre-processed, parsed or rendered. "
            "The exit code is the worst (highest) of the outcomes of the recipes, or SUCCESS in a bulk run if the share of recipes without errors or exceptions reaches the threshold, unrounded. "
            "The report of a bulk run counts each recipe once, with its warnings, errors and exceptions."
        ),
        over=["inputs"],
        quant="All multisets of recipes with all outcomes, options and thresholds.",
        why="Tests convert three good recipes.",
        files=["commands/convert.py"],
        mech=[("convert", "commands/convert.py"), ("bulk statistics", "commands/convert.py")],
        observe=["convert command line: exit code, files, report"],
        note=EXH,
    ),
    dict(
        id="C23",
        title="rattler-bulk-build builds every recipe once, and reports what became of each",
        statement=(
            "rattler-build is run once for each recipe file found, with its path and all the additional arguments, unchanged, whatever characters are in them. "
            "The report counts the recipes and the builds with an exit code other than 0, lists these, and counts each error line that the builds print; the debug log lists the recipes of each error line. "
            "The exit code is SUCCESS exactly if the unrounded share of successes reaches the threshold; a build that takes too long is counted as TIMEOUT."
        ),
        over=["inputs"],
        quant="All multisets of build outcomes, paths, arguments, options and thresholds.",
        why="Tests mock the build and check two outcomes.",
        files=["commands/rattler_bulk_build.py"],
        mech=[("build_recipe", "commands/rattler_bulk_build.py"), ("statistics", "commands/rattler_bulk_build.py")],
        observe=["rattler-bulk-build command line: exit code, calls, report, debug log"],
        note=EXH,
    ),
    dict(
        id="C15",
        title="Converting renames and moves each field as the V1 format requires",
        statement=(
            "Converting a V0 recipe moves or renames each field of source, build, about, test and requirements (of the recipe and each of its outputs) to where the V1 format has it, removes those that V1 does not have, and keeps all others with their values. "
            "Tests become the V1 list of tests, `pip check` commands become `pip_check`, and script_env becomes `script/env` and `script/secrets`. "
            "Sections, and fields of sources and builds, are in the canonical order, and warnings and errors are reported for exactly the fields that could not be converted."
        ),
        over=["inputs"],
        quant="All sets of fields, in all orders, forms and places.",
        why="Tests compare two dozen recipes to stored results; they do not combine fields.",
        files=["parser/recipe_parser_convert.py"],
        mech=[("upgrade functions", "parser/recipe_parser_convert.py"), ("canonical order", "parser/_types.py")],
        observe=["RecipeParserConvert.render_to_v1_recipe_format"],
        note=EXH + "All pairs of fields with all forms of values; all subsets in small sections.",
    ),
    dict(
        id="C31",
        title="Selectors mean the same after conversion to conditions",
        statement=(
            "For every platform and Python version, a converted recipe has the list items, requirements, patches and sources whose V0 selectors hold, and is skipped exactly if the V0 recipe is. "
            "Python version terms (py<37, py==310, py2k, py3k, py36) become equivalent match(python, ...) terms, in expressions with and, or, not and parentheses. "
            "`true`/`false` values with a selector apply under the same conditions; a selector that cannot be converted is reported."
        ),
        over=["inputs"],
        quant="All selector expressions, in all states of platform and Python version, in all places.",
        why="Tests compare a few selectors to stored results, as text; they do not evaluate conditions.",
        files=["parser/recipe_parser_convert.py", "parser/_types.py"],
        mech=[("_upgrade_selectors_to_conditionals", "parser/recipe_parser_convert.py"), ("selector regular expressions", "parser/_types.py")],
        observe=["RecipeParserConvert.render_to_v1_recipe_format"],
        note=EXH + "All expressions of one and two terms in all 28 states.",
    ),
    dict(
        id="C32",
        title="A converted recipe renders to the same values as the V0 recipe",
        statement=(
            "Rendering the Jinja of a converted recipe with its context gives the same values as rendering the V0 recipe with its variables: every substitution is marked with `${{`, exactly once, wherever it is and whatever it contains. "
            "The context has every variable of a supported type (text, number, boolean or expression), in order, with its value and type; each other variable is reported in a warning. "
            "If there are no such variables there is no context."
        ),
        over=["inputs"],
        quant="All variable definitions, expressions and places of substitutions.",
        why="Tests compare stored results as text; they do not render the Jinja.",
        files=["parser/recipe_parser_convert.py", "parser/_types.py", "parser/recipe_reader.py"],
        mech=[("_upgrade_jinja_to_context_obj", "parser/recipe_parser_convert.py"), ("variables table", "parser/recipe_reader.py")],
        observe=["RecipeParserConvert.render_to_v1_recipe_format"],
        note=EXH,
    ),
    dict(
        id="C09",
        title="A recipe knows if it was changed; difference, hash and equality follow its text",
        statement=(
            "After any sequence of edits, failing edits and reads: if the text of a recipe differs from before an edit, `is_modified()` is true; without any edit that takes effect it is false, there is no difference and the text stays. "
            "The difference of a modified recipe, applied to the original text, gives the rendered text, and the SHA-256 is that of the rendered text; failing edits, tests and reads do not change the text. "
            "Recipes are equal if and only if their texts (and schemas) are, whatever their class or history; comparing to something else raises `TypeError`."
        ),
        over=["inputs", "histories"],
        quant="All sequences of edits, failing edits and reads, on all recipes; all pairs of the states reached.",
        why="Tests check the flag after single edits; they do not compare it to the text after sequences, nor apply the difference.",
        files=["parser/recipe_reader.py", "parser/recipe_parser.py", "parser/recipe_parser_deps.py"],
        mech=[("is_modified, diff, calc_sha256, __eq__", "parser/recipe_reader.py"), ("modification flag", "parser/recipe_parser.py")],
        observe=["RecipeReader.is_modified", "RecipeReader.diff", "RecipeReader.calc_sha256", "RecipeReader.__eq__", "RecipeReader.render"],
        note=EXH,
    ),
    dict(
        id="C24",
        title="Files and texts are hashed as a whole, with the algorithm that was asked for",
        statement=(
            "`hash_file` gives the same digest as hashing all bytes of the file at once, for any size, content and supported algorithm, given by name or as a function; `hash_str` does so for a text in the encoding asked for. "
            "The SHA-256 of a downloaded archive is that of the bytes sent by the server. Hashing changes nothing; what cannot be read raises the error of the system, an unknown algorithm `ValueError`."
        ),
        over=["inputs"],
        quant="All sizes, contents, algorithms and encodings.",
        why="Tests hash one small file with two algorithms; files are read in buffers, whose boundaries they do not reach.",
        files=["utils/cryptography/hashing.py", "fetcher/http_artifact_fetcher.py"],
        mech=[("hash_file, hash_str", "utils/cryptography/hashing.py")],
        observe=["hash_file", "hash_str", "HttpArtifactFetcher.get_archive_sha256"],
        note=EXH,
    ),
    dict(
        id="C25",
        title="A message table keeps each message in order, in its category, and counts them",
        statement=(
            "After any sequence of additions, reads and clearings, `get_messages` gives the messages of the category since the last clearing, in order, and `get_message_count` their number. "
            "`get_totals_message` gives the numbers of errors and warnings in words (singular for one), or an empty text if there are no messages. Tables do not affect each other, and reading changes nothing."
        ),
        over=["histories"],
        quant="All sequences of operations.",
        why="Tests use one sequence.",
        files=["types.py"],
        mech=[("MessageTable", "types.py")],
        observe=["MessageTable"],
        note=EXH,
    ),
    dict(
        id="C26",
        title="The Python scanner finds each imported package once, by name and section",
        statement=(
            "Scanning a project gives, besides Python itself (in the host and run sections), each package imported by an absolute import in any of its `.py` files, wherever the import stands and however it is written (aliases, sub-modules, several on a line, continued lines), exactly once, under its package name. "
            "Modules of the standard library and at the top of the project, relative imports and text in strings or comments are not reported; a package used only in test files (`test_*.py`, `*_test.py`) belongs to the tests, all others to the run section. "
            "Files that are not valid Python are reported as one exception each and do not disturb the others; the order of files and imports, the encoding of files and the locale do not matter; the project is not changed."
        ),
        over=["inputs"],
        quant="All forms and places of imports, all combinations of files.",
        why="Tests scan three stored projects.",
        files=["scanner/dependency/py_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
        mech=[("PythonDependencyScanner", "scanner/dependency/py_dep_scanner.py")],
        observe=["PythonDependencyScanner.scan", "PythonDependencyScanner.get_message_table"],
        note=EXH,
    ),
    dict(
        id="C27",
        title="The pyproject.toml scanner finds each dependency, and reports unusable files",
        statement=(
            "Scanning a `pyproject.toml` file gives each entry of `project.dependencies` as a run dependency and each entry of all groups of `project.optional-dependencies` as a run constraint, unchanged and once, in whatever layout TOML allows, and nothing from other tables. "
            "A file that is missing, cannot be parsed or is not UTF-8 is reported as an exception, one without `project` as an error, naming the file; then there are no dependencies, and the file is never changed."
        ),
        over=["inputs"],
        quant="All combinations of dependencies and groups, all layouts, all cut or damaged files.",
        why="Tests scan four stored files.",
        files=["scanner/dependency/pyproject_dep_scanner.py", "scanner/dependency/base_dep_scanner.py"],
        mech=[("PyProjectDependencyScanner", "scanner/dependency/pyproject_dep_scanner.py")],
        observe=["PyProjectDependencyScanner.scan", "PyProjectDependencyScanner.get_message_table"],
        note=EXH,
    ),
    dict(
        id="C33",
        title="Conversion leaves the recipe as it is, repeats, and loses no comment",
        statement=(
            "After any sequence of edits and conversions, a conversion does not change the recipe (text, values, variables, comments, selectors, modification flag, difference), gives the same text and messages each time, and the same as converting the rendered text read anew. "
            "Each comment at the end of a line is, after the conversion, exactly once in the new recipe, on the line of the same value, or else is in exactly one warning; this holds for values that the conversion moves, renames or removes, but not for values whose text it rewrites (substitutions, licenses). Comments change nothing else."
        ),
        over=["inputs", "histories"],
        quant="All sequences of edits and conversions; all sets of commented lines.",
        why="Tests convert each file once, and compare to stored results.",
        files=["parser/recipe_parser_convert.py", "parser/recipe_parser.py"],
        mech=[("render_to_v1_recipe_format", "parser/recipe_parser_convert.py"), ("comments", "parser/recipe_parser_convert.py")],
        observe=["RecipeParserConvert.render_to_v1_recipe_format"],
        note=EXH,
    ),
    dict(
        id="C16",
        title="Pre-processing rewrites the known idioms wherever they are, and nothing else",
        statement=(
            "Before a conversion, the text is changed in these ways only, any number of times and in any combination: calls on values at the end of an expression in `{% set %}` and `{{ }}` become filters (`x.f(a)` to `x | f(a)`; not `join`, `format`, `count` and those of `env`, nor in quotes), keeping the value of the expression; "
            "double-quoted strings with `\\\\n` as values of keys become blocks with the same lines; ` environ[\"X\"]` becomes ` env.get(\"X\")`, `min_pin=`/`max_pin=` become `lower_bound=`/`upper_bound=`; "
            "keys `{{ hash_type }}`, `{{ hash }}` or `{{ hashtype }}` become `sha256`, or the type that the recipe sets these to, and the variable is removed if it is `sha256` and not used otherwise. "
            "Doing it again changes nothing."
        ),
        over=["inputs"],
        quant="All expressions, strings and lines with and without idioms, in all combinations.",
        why="Tests compare four stored files, with one idiom in each line.",
        files=["parser/recipe_parser_convert.py", "parser/recipe_parser.py", "parser/_types.py"],
        mech=[("pre_process_recipe_text", "parser/recipe_parser_convert.py"), ("pre-processing regular expressions", "parser/_types.py"), ("pre_process_remove_hash_type", "parser/recipe_parser.py")],
        observe=["RecipeParserConvert.pre_process_recipe_text", "RecipeParser.pre_process_remove_hash_type"],
        note=EXH,
    ),
    dict(
        id="C30",
        title="Recipes share nothing with callers, with each other, or with copies",
        statement=(
            "Changing what a recipe returned (values, variables, lists of paths, messages) or what was given to it (values of variables, patches) never changes the recipe. "
            "A deep copy or pickle of a recipe, in this process or in another, behaves as the recipe did at that point, and neither sees later edits of the other. "
            "Edits of several recipes, in any interleaving, give what the same edits give on each alone."
        ),
        over=["histories", "schedules"],
        quant="All values returned and taken in, all ways of copying, all sequences of edits on recipes and copies and their interleavings.",
        why="Tests edit one recipe at a time, and do not change what they get; sharing shows only in later reads.",
        files=["parser/recipe_reader.py", "parser/recipe_parser.py", "types.py"],
        mech=[("state of a recipe", "parser/recipe_reader.py"), ("edits", "parser/recipe_parser.py"), ("global sentinel and messages", "types.py")],
        observe=["copy.deepcopy, pickle of RecipeParser", "get_value, get_variable, list_*", "set_variable, patch", "MessageTable"],
        note=EXH,
    ),
    dict(
        id="C34",
        title="What a recipe says about itself, and what searches find in it",
        statement=(
            "The schema version, name, being multi-output, and package paths of a recipe are those that its text says, wherever the text says it, and appending to a package path gives a path in that package. "
            "Searching gives exactly the paths of the values whose text in the recipe (with its comment, if asked for) matches the regular expression, in the order of the recipe."
        ),
        over=["inputs"],
        quant="All combinations of name, schema version and outputs; all recipes and regular expressions.",
        why="Tests read a few sample files, and search these for two expressions.",
        files=["parser/recipe_reader.py", "parser/recipe_parser.py"],
        mech=[("searches", "parser/recipe_reader.py"), ("package paths", "parser/recipe_reader.py")],
        observe=["get_schema_version, get_recipe_name, is_multi_output, get_package_paths, append_to_path", "search"],
        note=EXH,
    ),
    dict(
        id="C35",
        title="What a command does depends on its input and options, not on where it is run",
        statement=(
            "For the same recipes and options, every command of `conda-recipe-manager` (convert, patch, bump-recipe, rattler-bulk-build, graph) leaves the same files, exits with the same code and prints the same report "
            "(apart from times and sizes), whatever the locale and its encoding (recipes are UTF-8), the hash seed, the working directory and the form of the path, `python -O`, `-v`, the environment (home, temporary directory, terminal, time zone, umask), "
            "and whether the program is started by its entry point or as a module. No other file is written."
        ),
        over=["inputs", "schedules"],
        quant="All commands, with success and failure, in all execution environments.",
        why="Tests run the commands inside of the test process, with one locale, hash seed, and working directory.",
        files=["commands/conda_recipe_manager.py", "commands/convert.py", "commands/patch.py", "commands/bump_recipe.py", "commands/rattler_bulk_build.py", "commands/graph.py"],
        mech=[("program", "commands/conda_recipe_manager.py"), ("reading and writing of files", "commands/bump_recipe.py"), ("conversion of a directory", "commands/convert.py")],
        observe=["conda-recipe-manager", "python -m conda_recipe_manager.commands.conda_recipe_manager"],
        note=EXH + "18 scenarios x 22 environments, one at a time and in pairs (all pairs thorough), each in a process of its own, against the plain environment, which is itself compared with known results.",
    ),
]
