"""Model checking of the specification itself: every small grammar of a family, every short input."""
import threading

import tlc as T

INV = {          # invariants of spec/MCParsegen.tla by property
    "C01": "Completeness NoStuck GotoDefined",
    "C02": "Soundness",
    "C03": "Shape ValueIsTree",
    "C04": "Shape ValueIsTree",
    "C05": "ErrorIsFirst Completeness",
    "C06": "ExpectedExact ExpectedReported",
    "C07": "Requests ErrorPassedOn",
    "C09": "Soundness Shape NoStuck GotoDefined",
    "C11": "Soundness Completeness ValueIsTree",
    "C13": "BoundedReductions NoStuck GotoDefined",
}
PROPS = {"C04": "NoActionAfterBadToken"}


def family(**kw):
    d = dict(MaxT=2, MaxN=2, MaxProds=3, MaxRhs=2)
    d.update(kw)
    return "".join("  %s = %s\n" % i for i in d.items())


def configs(prop, thorough):
    """(module, constants, rest of the configuration, what is covered)"""
    n = 4 if thorough else 3
    if prop in INV:
        two = prop == "C11"
        size = dict(MaxProds=3, MaxLen=4 if thorough else 3) if two else dict(MaxProds=n, MaxLen=5 if thorough else 4)
        cs = '  From = "all"\n  Entries = %d\n' % (2 if two else 1) + family(**size)
        rest = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % INV[prop]
        if prop in PROPS:
            rest += "PROPERTY %s\n" % PROPS[prop]
        yield "MCParsegen", cs, rest, "all grammars (2 terminals, 2 non-terminals, at most %d productions of at most 2 symbols%s), all inputs up to %d tokens" % (
            size["MaxProds"], ", two entries" if two else "", size["MaxLen"])
    if prop in INV:
        yield ("MCLong", family(MaxProds=3, MaxLen=4 if thorough else 3, Chunk=2),
               "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS SameAsParser\n",
               "the machine for very long runs in lock step with the parser's, for all grammars (2 terminals, 2 non-terminals, at most 3 productions of at most 2 symbols)")
    if prop == "C17":
        n = 3 if thorough else 2
        yield ("MCOwner", family(MaxProds=3, MaxLen=n), "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS NothingLost LeavesNothing SameAsParser\n",
               "ownership of everything at every step, for all grammars (2 terminals, 2 non-terminals, at most 3 productions of at most 2 symbols), all inputs up to %d tokens, a panic in any event" % n)
    if prop in ("C08", "C14", "C15"):
        yield ("Order", family(MaxProds=n), "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS SameFirst SameClosure\n",
               "all orders of work in FIRST tables and closures, for all grammars (2 terminals, 2 non-terminals, at most %d productions of at most 2 symbols)" % n)
    if prop == "C14":
        yield ("Iso", family(MaxProds=3 if thorough else 2), "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANTS Corresponds\n",
               "exchanges of productions, terminals and non-terminals, for all grammars (2 terminals, 2 non-terminals, at most %d productions of at most 2 symbols)" % (3 if thorough else 2))


class Model(threading.Thread):
    """Runs beside the rest of a check."""

    def __init__(self, p):
        threading.Thread.__init__(self, daemon=True)
        self.p, self.results, self.error = p, [], None

    def run(self):
        try:
            thorough = self.p.tier == "thorough"
            for module, cs, rest, what in configs(self.p.prop, thorough):
                r = T.tlc(self.p.sc, "model_" + module, module, "CONSTANTS\n" + cs + rest, workers=6 if thorough else 3, timeout=3000 if thorough else 600)
                T.check(r, module)
                self.results.append({"module": module, "what": what, "invariants": rest.split("FALSE\n")[1].split("\n")[0], "states": r.states})
                self.p.count(r)
        except Exception as e:
            self.error = e

    def finish(self):
        self.join()
        if self.error:
            raise self.error
        if self.results:
            self.p.notes["specification_model_checked"] = self.results
            self.p.log("specification model-checked: %s" % ", ".join("%s %d states" % (r["module"], r["states"]) for r in self.results))
