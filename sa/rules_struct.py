"""Structural helpers on the syntax tree of the analysed package."""
import ast


def annotation_names(I, c):
    """names annotated in the class body, in order (None when the class computes ELEMENTS itself)"""
    node = getattr(c, "node", None)
    if node is None:
        return None
    out = []
    for st in node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.append(st.target.id)
        if isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name) and t.id == "ELEMENTS":
                    return None
    if node.keywords:
        return None
    return out or None
