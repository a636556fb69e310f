"""Source dictionary: the integer literals of the library's headers that its reviewed version does not contain.

They only widen the value alphabets of the enumerations (a threshold, a chunk size or a special-cased operand is
then a letter of the alphabet); no verdict depends on them.  On the reviewed tree the dictionary is empty.
"""
import os, re

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dictionary-base.txt")
TOKEN = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|//[^\n]*|/\*.*?\*/|\b(0[xX][0-9a-fA-F\']+|0[bB][01\']+|[0-9][0-9\']*)(?:[uUlLzZ]*)\b(?!\.)', re.S)


def literals(repo):
    found = []
    root = os.path.join(repo, "include")
    for d, _, files in sorted(os.walk(root)):
        for f in sorted(files):
            text = open(os.path.join(d, f), errors="replace").read()
            for m in TOKEN.finditer(text):
                t = m.group(1)
                if not t:
                    continue
                t = t.replace("'", "")
                try:
                    v = int(t, 8) if re.fullmatch("0[0-7]+", t) else int(t, 0)
                except ValueError:
                    continue
                if v not in found and v < 2 ** 64:
                    found.append(v)
    return found


def new_literals(repo, most=10):
    base = {int(x) for x in open(KNOWN).read().split()} if os.path.exists(KNOWN) else set()
    return [v for v in literals(repo) if v not in base and v > 3][:most]


def header(repo):
    v = new_literals(repo)
    return ("#pragma once\n#include <cstdint>\n#include <vector>\nconstexpr unsigned DICTIONARY_SIZE = %d;\nconstexpr uint64_t DICTIONARY_LIST[DICTIONARY_SIZE + 1]{%s};\n"
            "inline const std::vector<uint64_t> DICTIONARY(DICTIONARY_LIST, DICTIONARY_LIST + DICTIONARY_SIZE);\n" % (len(v), ", ".join(["%dull" % x for x in v] + ["0"])))


if __name__ == "__main__":
    import sys
    print(" ".join(map(str, sorted(literals(sys.argv[1] if len(sys.argv) > 1 else "/repo")))))
