"""Abbreviation of printed terms: mutation history dropped, long sub-terms named."""


def strip(s, only=None):
    """`x<-f(..)` -> `x`: the object whatever was done to it since (only: just for this object)"""
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("<-", i) and (only is None or "".join(out[-len(only):]) == only):
            j = i + 2
            while j < n and (s[j].isalnum() or s[j] in "_:~=+-[]!<>") and s[j] != "(":
                j += 1
            if j < n and s[j] == "(":
                d, q = 0, False
                while j < n:
                    ch = s[j]
                    if ch == '"' and s[j - 1] != "\\":
                        q = not q
                    elif not q:
                        if ch in "({":
                            d += 1
                        elif ch in ")}":
                            d -= 1
                            if d == 0:
                                break
                    j += 1
                i = j + 1
                continue
        out.append(s[i])
        i += 1
    return "".join(out)


class Abbr:
    """names for long terms, applied in order"""

    def __init__(self, *pairs):
        self.pairs = pairs

    def __call__(self, s):
        s = strip(s)
        for long, short in self.pairs:
            s = s.replace(long, short)
        return s
