"""The grammar of the language, as shipped with the interpreter (not part of rsm): is a source inside it?

The marks :toc: and :appendix: are always read as blocks whose end is missing; that is no error.
"""
import tree_sitter
import tree_sitter_rsm

_parser = tree_sitter.Parser(tree_sitter.Language(tree_sitter_rsm.language()))


def places(src):
    """Where the errors are: (row, column, row, column) of each."""
    out, stack = set(), [_parser.parse(src.encode("utf-8")).root_node]
    while stack:
        x = stack.pop()
        if x.type == "ERROR":
            out.add((*x.start_point, *x.end_point))
        stack.extend(x.children)
    return out


def find(src, types):
    """The nodes of some types in order: (type, row, column)."""
    out, stack = [], [_parser.parse(src.encode("utf-8")).root_node]
    while stack:
        x = stack.pop()
        if x.is_named and x.type in types:
            out.append((x.type, *x.start_point))
        stack.extend(reversed(x.children))
    return out


def errors(src):
    stack, n = [_parser.parse(src.encode("utf-8")).root_node], 0
    while stack:
        x = stack.pop()
        if not x.has_error:
            continue
        if x.type == "ERROR":
            n += 1
        stack.extend(x.children)
    return n


def clean(src):
    return errors(src) == 0
