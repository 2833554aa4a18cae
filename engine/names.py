"""structure of demangled C++ names"""
from functools import lru_cache


@lru_cache(maxsize=None)
def parse(d):
    """(class, method, nargs text) of a demangled function name; class and method without template
    arguments of the method; e.g. ('std::queue<int, std::deque<int>>', 'front', '()')"""
    s = d
    for suf in (" const", " &", " &&", " noexcept"):
        if s.endswith(suf):
            s = s[:-len(suf)]
    i = s.find(" requires ")
    if i > 0 and s[:i].count("(") >= 1:
        s = s[:i]
        for suf in (" const",):
            if s.endswith(suf):
                s = s[:-len(suf)]
    # the parameter list: last top-level parenthesis group
    depth, k = 0, len(s) - 1
    if not s.endswith(")"):
        return None
    while k >= 0:
        c = s[k]
        if c in ")>" and not (c == ">" and s[k - 1:k + 1] in ("->",)):
            depth += 1
        elif c in "(<":
            depth -= 1
            if depth == 0:
                break
        k -= 1
    head, args = s[:k], s[k:]
    if head.endswith("operator"):        # operator()(...)
        return None
    # split at top-level spaces (return type) and '::'
    comps, depth, start = [], 0, 0
    i = 0
    while i < len(head):
        c = head[i]
        if head.startswith("operator", i) and (i == 0 or not head[i - 1].isalnum()):
            break
        if c in "<([{":
            depth += 1
        elif c in ">)]}":
            depth -= 1
        elif depth == 0 and c == " ":
            comps, start = [], i + 1
        elif depth == 0 and head.startswith("::", i):
            comps.append(head[start:i])
            i += 2
            start = i
            continue
        i += 1
    m = head[start:]
    if m.startswith("operator"):
        rest = m[8:]
        base = m if "<" not in rest or rest[:1] in "<>=-" else "operator" + rest[:rest.index("<")]
        if rest.startswith(("<<", "<=", "<>")) is False and rest.startswith("<"):
            base = "operator<"
        # drop explicit template arguments of operator==<...>
        for op in ("operator==", "operator!=", "operator<=>", "operator++", "operator--", "operator()", "operator[]",
                   "operator->", "operator*", "operator+=", "operator-=", "operator=", "operator-", "operator+", "operator<", "operator>"):
            if m.startswith(op):
                base = op
                break
        m = base
    else:
        j = m.find("<")
        m = m if j < 0 else m[:j]
    i = m.find("[abi:")
    return "::".join(comps), m if i < 0 else m[:i], args


def base(cls):
    """class name without its template arguments"""
    i = cls.find("<")
    return cls if i < 0 else cls[:i]
