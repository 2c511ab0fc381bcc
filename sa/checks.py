"""The registry of checks: which schema families and which static rules decide which property."""
import zlib

from . import cases as C
from . import fams as F
from . import fams2 as G
from . import fams3 as H
from . import fams4 as K
from . import fams5 as D
from . import fams6 as N
from . import fams7 as P
from . import fams8 as Q
from .gen import mixed
from . import machine as M
from .run import run_cases


def pick(gen, k, tier):
    """every schema in the thorough tier, one in k (by a checksum of its name) in the quick one"""
    for c in gen:
        if tier == "thorough" or k <= 1 or zlib.crc32(c.name.encode()) % k == 0:
            yield c


TIERED = object()
COMMAND = ("The source of the command (argument handling, front end, code generator, diagnosis, call of the machine) is interpreted abstractly on each schema; the machine is a stand-in "
           "with an unknown status, so every way the command can end is a path, and each path is held against the rules.")
IMAGE = ("The bytes the interpreted compiler would hand to the machine are decoded with the tables read from the machine's source and verified by a dataflow analysis over the control flow "
         "graph of every function of every module, reachable or not.")
ENCODING = ("The encoder of instructions is interpreted abstractly on every instruction and operand boundary and its bytes are decoded with the numbers and widths read from the machine's source; "
            "programs that fill an operand or table to its limit are compiled abstractly and compared with the language definition.")
LOADING = ("The serialiser is interpreted abstractly on documents at every boundary of its format, and on whole programs; the bytes are decoded by the loader's rules and compared with the document, "
           "and the behaviour of the decoded image with the language definition.")
REPEAT = ("The command is interpreted abstractly several times per schema, giving the host's free choices (iteration order of sets, hashes and addresses, clock, random numbers, spelling of the path) different values; all outcomes must be equal.")
MISSING = ("The diagnosis the interpreted checker builds for a match that leaves values out is read back and decided with the definition's own usefulness test on the patterns.")


def mix(quick, *profiles, thorough=2500):
    """randomly mixed schemas: `quick` of each profile, `thorough` of each in the thorough tier"""
    def gen(tier):
        for p in profiles:
            yield from mixed(p, thorough if tier == "thorough" else quick)
    return gen, TIERED


def lmix(quick, *profiles, thorough=1500):
    """the same with lines compared"""
    gen, t = mix(quick, *profiles, thorough=thorough)
    return (lambda tier: C.lined(gen(tier))), t


class Check:
    """schema families (compiled abstractly and compared with the language definition) and static rules"""
    level = "translation_validation"
    explain = ("Each schema is an Amanda program whose leaves are opaque functions of unknown result. The compiler's "
               "source (parser, checker, transformer, code generator) is interpreted abstractly over the schema; the "
               "bytecode it would emit is interpreted over symbolic values, splitting on every unknown condition; "
               "verdict, line of the rejection and the trace of observable events of every path are compared with an "
               "independent definition of the language. Nothing of the repository is imported or executed.")

    def __init__(self, *fams, floors=None, rules=(), min_schemas=None, level=None, rules_text=(), explain=None):
        self.fams = fams
        texts = [r for r in rules if isinstance(r, str)]
        rules = [r for r in rules if not isinstance(r, str)]
        self.rules_ = rules
        if explain:
            self.explain = explain
        self.floors = dict(floors or {})
        if min_schemas:
            self.floors["schemas"] = min_schemas
        if level:
            self.level = level
        self.rules = ["accepted or rejected as the definition says", "rejected on the line of the construct at fault",
                      "same observable events on every path"] if fams and not texts else texts
        self.rules += list(rules_text)
        self.rules += [r.__doc__.strip().split("\n")[0] for r in rules]

    def run(self, rep):
        cs, seen = [], set()
        for gen, k in self.fams:
            for c in gen(rep.tier) if k is TIERED else pick(gen(), k, rep.tier):
                if c.name not in seen:
                    seen.add(c.name)
                    cs.append(c)
        if cs:
            run_cases(rep, cs)
        for r in self.rules_:
            r(rep)


CONTROL = ("de", "ate", "inc", "se", "senaose", "enquanto", "escolha", "caso", "iguala", "escolhat", "igualat", "ret", "produz")


def CONTROL_FORMS():
    return P.form_cases(CONTROL)


CHECKS = {
    "C01": Check(mix(60, "controlo", "misto"),
                 (lambda: C.control(2), 1), (lambda: C.control(2, kinds=C.CTRL), 3), (H.sequences, 2), (G.jumps, 6), (F.eval_order, 3), (H.wide, 3), (P.series, 1), (CONTROL_FORMS, 2), (Q.many_branches, 5), (Q.own_bound, 5), (Q.long_chains, 3), (Q.deep_jumps, 1),
                 min_schemas=1800),
    "C02": Check(mix(60, "valores"),
                 (lambda: F.expr_pairs("irb"), 3), (F.expr_mixed, 1), (F.expr_unary, 1), (F.eval_order, 1),
                 (F.expr_positions, 10), (H.promotions, 4), (P.form_cases, 4), (Q.const_ops, 3), (Q.long_chains, 2), min_schemas=1600),
    "C03": Check((F.ops_matrix, 1), (N.op_results, 2), (K.equalities, 2), (K.chains, 4), (F.compound_matrix, 1), (F.expr_unary, 1), (H.promotions, 3), (P.form_cases, 6), (Q.const_ops, 3), rules=[M.operators], min_schemas=1400),
    "C04": Check(mix(60, "valores", "funcoes"),
                 (F.slots, 3), (F.fixed_slots, 1), (H.promotions, 4), (G.calls, 2), (N.op_results, 6), (N.arg_names, 4), (P.form_cases, 6), (Q.late_member, 2), (Q.casts_in_place, 12), min_schemas=2400),
    "C05": Check(mix(60, "valores"),
                 (F.slots, 6), (lambda: F.expr_positions("ir"), 8), (F.compound_matrix, 1), (G.optionals, 1), (H.promotions, 1), (N.op_results, 5), (P.form_cases, 5), (Q.casts_in_place, 8), (Q.late_member, 4),
                 min_schemas=1500),
    "C06": Check(mix(100, "nomes"),
                 (G.names_use, 1), (G.shadowing, 1), (G.locals_nest, 2), (G.modules, 2), (Q.import_graphs, 3), (H.wide, 3), (Q.own_bound, 2), min_schemas=850),
    "C07": Check(mix(60, "nomes"), (N.fields, 1),
                 (G.redeclare, 1), (G.declarations, 1), (G.shadowing, 1), (G.names_use, 2), (G.modules, 2), (Q.pairs_of_names, 2), min_schemas=600),
    "C08": Check(mix(80, "funcoes"),
                 (lambda: G.returns(2), 4), (G.jumps, 1), (H.jumps_after, 1), (H.sequences, 8), (Q.many_branches, 1), (Q.deep_jumps, 4), min_schemas=1900),
    "C09": Check(mix(120, "caso"),
                 (lambda: G.iguala_flat(3), 1), (G.iguala_nested, 1), (G.iguala_bad, 1), (G.iguala_value, 1), (H.payload_patterns, 1),
                 (H.wide, 2), (K.wildcards, 2), (Q.match_values, 3), (Q.match_tables, 1), min_schemas=1000),
    "C10": Check(mix(100, "dados"), (N.arg_names, 2), (N.fields, 2), (K.chains, 2), (Q.pairs_of_names, 6), (Q.late_member, 6),
                 (G.registos, 1), (F.compound_matrix, 1), (G.calls, 3), (H.wide, 1), (H.promotions, 3), min_schemas=400),
    "C11": Check(mix(100, "funcoes"), (N.arg_names, 2),
                 (G.calls, 1), (G.names_use, 3), (lambda: G.returns(1), 1), (G.registos, 1), (H.wide, 1), (H.promotions, 3), (Q.members_of_modules, 2), (Q.late_member, 6), rules=[M.base_of_frames], min_schemas=600),
    "C12": Check(mix(80, "nomes", "controlo"),
                 (G.locals_nest, 1), (G.shadowing, 1), (lambda: C.control(2), 3), (H.wide, 1), (H.sequences, 8), (P.series, 3), (Q.long_chains, 3), (Q.own_bound, 6), min_schemas=700),
    "C13": Check(mix(100, "dados"), (K.chains, 2),
                 (G.vectors, 1), (F.compound_matrix, 2), (F.slots, 12), (F.fixed_slots, 3), (H.wide, 2), rules=[M.inner_vectors], min_schemas=700),
    "C14": Check(mix(60, "dados"),
                 (G.optionals, 1), (F.fixed_slots, 4), (F.slots, 12), (H.promotions, 2), (F.ops_matrix, 4), (K.equalities, 1), (Q.optional_places, 3), min_schemas=600),
    "C15": Check((G.modules, 1), (P.same_names, 1), (Q.import_graphs, 1), (Q.members_of_modules, 1), rules=[M.frames_of_modules], min_schemas=600),
    "C16": Check((K.literals, 1), (K.lexemes, 1), (N.case_names, 1), (N.line_layouts, 4), (F.expr_mixed, 4), (Q.literal_sizes, 1), (Q.short_texts, 2), min_schemas=3000),
    "C17": Check((K.wellformed, 1), (N.arg_names, 1), (N.fields, 1), (N.case_names, 3), (lambda: K.mutants(), 12), (K.lexemes, 1), (K.chains, 2), (K.valueless, 2), (N.generics, 1), (Q.short_texts, 3), min_schemas=6000),
    "C22": Check(lmix(50, "misto", "controlo", "caso", "valores", "dados", "funcoes"),
                 (lambda: C.lined(F.eval_order()), 1), (lambda: C.lined(G.modules()), 1), (lambda: C.lined(C.control(2)), 5),
                 (lambda: C.lined(F.expr_positions()), 12), (lambda: C.lined(G.calls()), 2), (lambda: C.lined(G.registos()), 2),
                 (lambda: C.lined(G.optionals()), 3), (lambda: C.lined(G.iguala_value()), 1), (lambda: C.lined(G.iguala_flat(2)), 2),
                 (lambda: C.lined(G.vectors()), 4), (N.line_layouts, 1), (lambda: C.lined(H.wide()), 3), (lambda: C.lined(H.sequences()), 6),
                 (lambda: C.lined(H.payload_patterns()), 2), rules=[M.lines_of_frames], rules_text=["same line, and same lines of the callers, for every event and failure"],
                 min_schemas=700),
    "C18": Check((D.commands, 1), (N.sizes, 1), (D.sources_cmd, 12), (D.sources_debug, 40), min_schemas=1500, explain=COMMAND, level="exploration", rules=[
        "a rejected program is never started, writes nothing, ends with a nonzero status and is diagnosed by file, line, text of the line and reason",
        "an accepted program is handed to the machine once and whole, nothing else is printed, and the status is zero exactly when the machine's is",
        "only --debug writes, and only one file; a file that is missing and wrong arguments are diagnosed"]),
    "C19": Check((D.images, 8), (D.images_mixed, TIERED), (lambda: D.via(C.control(2), "img"), 8), (lambda: D.via(G.returns(1), "img"), 4),
                 (lambda: D.via(K.wildcards(), "img"), 6), min_schemas=600, explain=IMAGE, level="exploration", rules=[
        "every byte of the code belongs to one instruction the machine has", "every operand is inside the table it indexes, every jump meets an instruction of the same function",
        "no path takes more values off the operand stack than it put there", "every local is inside the frame, those bound by a match are distinct",
        "control never runs off a function, into another one, or past the end", "names, constants and functions are listed once; the line table is ordered and inside the source"]),
    "C20": Check((D.instructions, 1), (D.limits, 1), min_schemas=650, explain=ENCODING, rules=[
        "the machine reads back the instruction and the operands that were written, and the bytes written are the bytes counted",
        "an operand that does not fit is refused, never cut", "a program of any size works, or is rejected on its line"]),
    "C21": Check((D.documents, 1), (D.loads, 5), min_schemas=1000, explain=LOADING, rules=[
        "the loader reads back the document that was written, values it has no form for are refused", "the image has every key the loader takes",
        "the image as the loader reads it behaves as the definition says, lines included"]),
    "C23": Check((D.repeats, 20), (lambda: D.via(P.many(), "rep"), 1), (lambda: D.via(P.same_names(), "rep"), 5), (lambda: D.via(N.generics(), "rep"), 12), (lambda: D.via(G.iguala_bad(), "rep"), 6), (lambda: D.via(D.uncovered(), "rep"), 6), min_schemas=200, explain=REPEAT, level="exploration", rules=[
        "same status, diagnosis, output and image under every choice of the host and every spelling of the path"]),
    "C24": Check((D.missing, 1), min_schemas=900, explain=MISSING, level="exploration", rules=[
        "each listed pattern is a pattern of the value and fits a value the arms leave out", "with the listed patterns nothing is left out", "none is listed twice"]),
}
