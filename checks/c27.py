"""C27  Text, list, file and table helpers."""
import os

import numpy as np
from hypothesis import strategies as st

from harness.core import again, assume_note, results_stay, sub
from harness.gens import fixed, q, seeds

P = "C27"
results_stay(P)
assume_note(P, "lines of text lists contain no line breaks, and the last one is not empty; tables are rectangular; camel-case words have two or more letters")

TXT = st.text(st.characters(codec="utf-8", exclude_characters="\r\n\x00", exclude_categories=["Cs"]), max_size=12)
NAME = st.text(st.sampled_from("abcXYZ019 _-[]*?!(){}é.~#%$"), min_size=1, max_size=8).filter(lambda s: not s.startswith(".") and s.strip(" ") == s)
EXT = st.sampled_from(["tif", "TIF", "txt", "hdr", "j2", "tiff", "if", "tar.gz", "aux.xml"])

lines = fixed(lines=st.lists(TXT, max_size=8), last=TXT.filter(bool), empty=st.booleans(), eol=st.sampled_from(["\n", "\r\n", "\r"]), final=st.booleans(), times=st.sampled_from([1, 1, 1, 1, 50, 3000]))


@sub(P, "text_lists", lines, quick=300, rule="several lines, one of them empty or not ASCII")
def text_lists(case, ctx):
    """a list of lines written to a file reads back; files with any line ending read as their lines; breaks are removed from text whatever their kind"""
    from resippy.utils import file_utils, string_utils
    ls = [] if case["empty"] and not case["lines"] else case["lines"] * case["times"] + [case["last"]]
    keep = list(ls)
    f = ctx.path("lines.txt")
    file_utils.write_text_list_to_file(ls, f)
    ctx.equal(ls, keep, "the caller's list")
    with open(f, encoding="utf-8", newline="") as h:
        raw = h.read()
    ctx.equal(raw.rstrip("\n") if raw.endswith("\n") else raw, os.linesep.join(ls), "text of the file")
    ctx.equal(file_utils.read_text_list_from_file(f), ls, "lines read back")
    eol = case["eol"]
    text = eol.join(ls) + (eol if case["final"] and ls else "")
    with open(f, "w", encoding="utf-8", newline="") as h:
        h.write(text)
    ctx.equal(file_utils.read_text_list_from_file(f), ls, "lines of a file with line ending %r" % eol)
    ctx.equal(string_utils.remove_newlines(text), "".join(ls), "text without line breaks")
    ctx.equal(string_utils.cleanup_newlines(text), text.replace(eol, os.linesep), "text with the line breaks of the system")
    ctx.nontrivial(len(ls) > 1 and any(not x or not x.isascii() for x in ls))


snake = fixed(words=st.lists(st.text(st.sampled_from("abcdefgxyz"), min_size=2, max_size=6), min_size=1, max_size=5), digits=st.lists(st.booleans(), min_size=5, max_size=5), lower=st.booleans())


@sub(P, "snake_case", snake, quick=200, rule="several words")
def snake_case(case, ctx):
    """camel-case words become lower-case words joined by underscores, and snake case stays as it is"""
    from resippy.utils import string_utils
    w = [x + ("7" if d else "") for x, d in zip(case["words"], case["digits"])]
    camel = "".join(x.capitalize() for x in w)
    if case["lower"]:
        camel = camel[0].lower() + camel[1:]
    want = "_".join(w)
    ctx.equal(string_utils.convert_to_snake_case(camel), want, "snake case of %r" % camel)
    ctx.equal(string_utils.convert_to_snake_case(want), want, "snake case of snake case")
    ctx.nontrivial(len(w) > 1)


tree = fixed(top=NAME, files=st.lists(st.tuples(NAME, EXT, st.booleans()), max_size=8), dirs=st.lists(st.tuples(NAME, st.booleans()), max_size=3), exts=st.one_of(st.none(), EXT, st.lists(EXT, min_size=1, max_size=3, unique=True)),
             style=st.sampled_from(["", ".", "*."]), full=st.booleans(), start=st.one_of(NAME, st.lists(NAME, min_size=1, max_size=3)), prefix=st.integers(0, 3), slash=st.booleans(), sub=st.lists(NAME, min_size=1, max_size=3))


@sub(P, "listings", tree, quick=300, rule="a directory with several files of which some match")
def listings(case, ctx):
    """files and folders of a directory are found by extension and by the beginning of their names, whatever its own name; paths and missing directories are made from parts"""
    from resippy.utils import file_utils as fu
    d = os.path.join(os.path.dirname(ctx.path("x")), case["top"])
    if case["top"] in (".", ".."):
        d = ctx.path("x", "y")[:-2]
    fu.make_dir_if_not_exists(d)
    names, folders = set(), set()
    for n, e, with_ext in case["files"]:
        nm = n + "." + e if with_ext else n
        names.add(nm)
        with open(os.path.join(d, nm), "w") as h:
            h.write(nm)
    for n, with_ext in case["dirs"]:
        nm = n + (".tif" if with_ext else "")
        if nm not in names and nm not in (".", ".."):
            os.makedirs(os.path.join(d, nm), exist_ok=True)
            folders.add(nm)
            # what lies deeper is not in this directory
            with open(os.path.join(d, nm, "deep.tif"), "w") as h:
                h.write("")
    fu.make_dir_if_not_exists(d)
    ctx.equal(set(os.listdir(d)), names | folders, "contents after asking for an existing directory")
    arg = d + (os.sep if case["slash"] else "")
    ctx.equal(sorted(os.path.realpath(p) for p in fu.get_all_folders_in_dir(arg)), sorted(os.path.realpath(os.path.join(d, n)) for n in folders), "folders")
    ex = case["exts"]
    styled = ex if ex is None else case["style"] + ex if isinstance(ex, str) else [case["style"] + e for e in ex]
    keep = list(styled) if isinstance(styled, list) else styled
    wanted = None if ex is None else [ex] if isinstance(ex, str) else ex
    match = {n for n in names if wanted is None or any(n.endswith("." + e) for e in wanted)}

    def check(got, want, what):
        if case["full"]:
            ctx.equal(sorted(os.path.realpath(p) for p in got), sorted(os.path.realpath(os.path.join(d, n)) for n in want), what)
        else:
            ctx.equal(sorted(got), sorted(want), what)
    check(fu.get_all_files_in_dir(arg, styled, return_fullpaths=case["full"]) if ex is not None else fu.get_all_files_in_dir(arg, return_fullpaths=case["full"]), match, "files with extension %r" % (styled,))
    ctx.equal(styled, keep, "the caller's extensions")
    # beginnings of actual names, and others
    starts = case["start"]
    if case["files"] and case["prefix"]:
        nm = sorted(names)[case["prefix"] % len(names)]
        pre = nm[:case["prefix"]]
        pre = pre.swapcase() if len(names) % 3 == 0 else pre
        starts = pre if isinstance(starts, str) else [pre] + starts
    sl = [starts] if isinstance(starts, str) else starts
    got = fu.get_files_in_dir_that_start_with(arg, starts, styled, return_fullpaths=case["full"])
    check(set(got), {n for n in match if any(n.startswith(s) for s in sl)}, "files starting with %r" % (starts,))
    # paths
    p = fu.get_path_from_subdirs(d, case["sub"])
    want = d
    for s in case["sub"]:
        want = want + os.sep + s
    ctx.equal(p, want, "path from parts")
    new = os.path.join(d, "made", *["n" + s for s in case["sub"]])
    fu.make_dir_if_not_exists(new)
    ctx.check(os.path.isdir(new), "directory %r was not made" % new)
    ctx.nontrivial(len(names) > 1 and 0 < len(match))


CELL = st.text(st.sampled_from("abc XYZ012.-,;\t\"'é\n"), max_size=6)
table = fixed(ncol=st.integers(1, 5), rows=st.lists(st.lists(CELL, min_size=5, max_size=5), max_size=6), header=st.lists(CELL.filter(lambda s: s.strip()), min_size=5, max_size=5, unique=True), delim=st.sampled_from([",", ";", "\t", "|"]),
              final=st.booleans(), quote=st.booleans(), blank=st.booleans(), times=st.sampled_from([1, 1, 1, 1, 50, 2000]))


@sub(P, "tables", table, quick=300, rule="several rows and columns")
def tables(case, ctx):
    """a delimited table with one header line reads as a column of text for each header, in order, also without rows or with a blank last line"""
    import csv
    from resippy.utils.csv_utils import CsvUtils
    n = case["ncol"]
    clean = (lambda s: s) if case["quote"] else (lambda s: "".join(ch for ch in s if ch not in "\n\"'" and ch != case["delim"]) or "0")
    head = [clean(h) + ("%d" % i if not case["quote"] else "") for i, h in enumerate(case["header"][:n])]
    rows = [[clean(v) for v in r[:n]] for r in case["rows"] * case["times"]]
    f = ctx.path("table.csv")
    with open(f, "w", newline="") as h:
        w = csv.writer(h, delimiter=case["delim"], quoting=csv.QUOTE_ALL if case["quote"] else csv.QUOTE_NONE, lineterminator="\n")
        w.writerows([head] + rows)
        if case["blank"]:
            h.write("\n")
    if not case["final"]:
        with open(f, newline="") as h:
            t = h.read()
        with open(f, "w", newline="") as h:
            h.write(t[:-1])
    d = CsvUtils.single_line_header_csv_to_dict(f) if case["delim"] == "," else CsvUtils.single_line_header_csv_to_dict(f, delimiter=case["delim"])
    ctx.equal(list(d), head, "columns")
    for i, nm in enumerate(head):
        ctx.equal([str(v) for v in d[nm]], [r[i] for r in rows], "column %r" % nm)
    ctx.nontrivial(n > 1 and len(rows) > 1)


VAL = st.one_of(st.integers(-2 ** 62, 2 ** 62), q(-1e6, 1e6), st.text(max_size=4), st.booleans(), st.none())
tup = fixed(kind=st.sampled_from(["int", "float", "mixed", "text"]), n=st.integers(0, 6), k=st.integers(1, 4), vals=st.lists(VAL, min_size=24, max_size=24), remove=st.integers(0, 23))


@sub(P, "lists", tup, quick=250, rule="tuples of values of different types")
def lists(case, ctx):
    """tuples are split into one list per position and joined again with every value as it was; removing a value removes all of it and nothing else"""
    from resippy.utils import numpy_and_array_utils as nu
    n, k = case["n"], case["k"]
    v = case["vals"]
    if case["kind"] == "int":
        v = [hash(str(x)) % 2 ** 61 if not isinstance(x, int) else int(x) for x in v] if False else [len(str(x)) + i if not isinstance(x, int) else int(x) for i, x in enumerate(v)]
    elif case["kind"] == "float":
        v = [float(x) if isinstance(x, (int, float)) else 0.5 for x in v]
    elif case["kind"] == "text":
        v = [str(x) for x in v]
    tuples = [tuple(v[i * k:(i + 1) * k]) for i in range(n)]
    want = [[t[j] for t in tuples] for j in range(k)] if n else []
    got = nu.list_of_tuples_to_separate_lists(list(tuples))
    ctx.equal([list(x) for x in got], want, "separate lists")
    ctx.equal([[type(y) for y in x] for x in got], [[type(y) for y in x] for x in want], "types of the values")
    if n:
        ctx.equal([tuple(t) for t in nu.separate_lists_to_list_of_tuples(got)], tuples, "tuples joined again")
    flat = [v[i] for i in range(len(v)) if i % 3] + v[:5]
    bad = v[case["remove"]]
    out = nu.remove_all_entries_from_list(flat, bad)
    ctx.equal(out, [x for x in flat if not x == bad], "list without %r" % (bad,))
    ctx.label(case["kind"])
    ctx.nontrivial(case["kind"] == "mixed" and n > 1 and k > 1)


again(P, "text_lists", (), 40, most=5)
again(P, "tables", ("header", "delim"), 40, most=5)
again(P, "listings", (), 40, most=3, same_files=False)
again(P, "lists", ("k", "n"), 40, most=5)
again(P, "snake_case", (), 40, most=5)
