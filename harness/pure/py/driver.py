# Evaluates what it is sent, a line each, and prints what came out as a line of JSON.
import json, sys
import rustsat
from rustsat import Lit, Clause, Cnf, VarManager
from rustsat.encodings import am1, card, pb


class Evil:
    """A sequence that runs something whenever an item is asked for"""

    def __init__(self, items, action):
        self.items, self.action = items, action

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        try:
            self.action()
        except Exception:
            pass
        return self.items[i]


def canon(x):
    if x is None or isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str):
        return {"s": x}
    if isinstance(x, Lit):
        return {"l": x.to_ipasir()}
    if isinstance(x, Clause):
        return {"c": [x[i].to_ipasir() for i in range(len(x))]}
    if isinstance(x, Cnf):
        return {"f": [canon(x[i])["c"] for i in range(len(x))]}
    if isinstance(x, (list, tuple)):
        return {"a": [canon(y) for y in x]}
    return {"o": type(x).__name__}


def fresh():
    return dict(rustsat=rustsat, Lit=Lit, Clause=Clause, Cnf=Cnf, VarManager=VarManager, am1=am1, card=card, pb=pb, Evil=Evil, L=lambda xs: [Lit(x) for x in xs], W=lambda xs: [(Lit(l), w) for l, w in xs])


def main():
    out = sys.stdout
    G = fresh()
    for line in sys.stdin:
        line = line.rstrip("\n")
        if line == "RESET":
            G = fresh()
            r = None
        else:
            try:
                try:
                    code = compile(line, "line", "eval")
                except SyntaxError:
                    exec(compile(line, "line", "exec"), G)
                    r = None
                else:
                    r = canon(eval(code, G))
            except BaseException as e:
                r = {"e": type(e).__name__, "m": str(e)[:300]}
        out.write(json.dumps(r) + "\n")
        out.flush()


main()
