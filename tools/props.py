"""The properties, and the generator of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
A = "amanda/compiler/"
CORE, GEN, PARSE, TRANS, EXH, AST = (A + "check/core.py", A + "codegen.py", A + "parse.py", A + "transform.py",
                                     A + "check/exhaustiveness.py", A + "ast.py")
TYP, VM, LOAD = A + "types/core.py", "amanda/vm/src/vm.rs", "amanda/vm/src/binload.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique="", state=(), note="", observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=a, technique=technique, note=note))


SAMPLED = "The end-to-end tests only compile a few hundred fixed programs and look at the exit status; "
AI = ("abstract interpretation of the compiler's source over program schemas with opaque leaves, and of the emitted "
      "bytecode over symbolic values, compared path by path with an independent definition of the language")

prop("C01", "Statements run in the order and under the conditions the program states",
     "The compiled program performs exactly the statements that the source prescribes, in source order: only the chosen branch of "
     "se/senaose/senao and escolha runs, enquanto and para test before every round, and quebra, continua and retorna leave exactly the "
     "loop or function they are written in, at any nesting depth. The value an escolha is compared with and the start of a para are computed "
     "once; conditions of later branches are not evaluated once a branch is taken.",
     ["programs", "inputs"], "every program built from the control statements, nested in any way, and every outcome of its conditions",
     SAMPLED + "no test runs the bytecode of nested jumps for all outcomes of the conditions.",
     [GEN, TRANS, PARSE], [("jump and label generation of se, enquanto, para, quebra, continua", GEN), ("escolha turned into comparisons", TRANS)], AI)

prop("C02", "Expressions keep their structure and evaluate each operand exactly once",
     "Every expression is evaluated with the precedence and associativity of the language, its operands from left to right and each exactly once, "
     "in whatever position the expression is written (condition, argument, index, field value, text interpolation, initial value, return value). "
     "Parentheses override precedence and nothing else.",
     ["programs", "inputs"], "every nesting of operators, calls, indexing, field access, interpolation and conversions in every expression position",
     SAMPLED + "the parser tests look at a handful of expressions and never at the order in which operands are evaluated.",
     [PARSE, GEN, AST], [("precedence climbing", PARSE), ("generation of operands and operators", GEN)], AI)

prop("C03", "Operators accept exactly the right types and compute with the right operation",
     "Each unary, binary and compound-assignment operator is accepted exactly for the operand types the language gives it, the result has the "
     "type the language says, and the machine receives the operation that was written with its operands in the written order. A compound assignment "
     "to a variable, field or element means the same as reading it, applying the operator and assigning it.",
     ["programs", "inputs"], "every operator applied to every pair of operand types and every kind of assignment target",
     SAMPLED + "only some operator and type pairs occur in them, and the code that is generated is never compared with the operator written.",
     [TYP, CORE, GEN, PARSE], [("operator typing tables", TYP), ("operator to opcode choice", GEN)], AI)

prop("C04", "A program is accepted exactly when its values fit the types they are used at",
     "A value is accepted in an initialiser, assignment, argument, named argument, field, element, return, default, pattern or condition exactly when "
     "its static type is the expected one or converts implicitly to it; every other program is rejected before anything runs.",
     ["programs"], "every position with an expected type, every expected type and every kind of value",
     SAMPLED + "the invalid programs among them exercise one wrong type per rule, not each rule against each type.",
     [CORE, TYP], [("types_match and promotion rules", TYP), ("per-construct checks", CORE)], AI)

prop("C05", "Implicit and explicit conversions happen exactly where the types ask for them",
     "Wherever an int is used at type real (or real?) it reaches the machine converted to real, once, and a value that already has the expected type "
     "is not converted; an explicit conversion converts to the type that is written, and is accepted exactly for the pairs the language allows.",
     ["programs", "inputs"], "every position that expects a type, every operand pair of mixed numeric type and every pair of types of an explicit conversion",
     SAMPLED + "a missing conversion still compiles and only shows for particular values at run time.",
     [CORE, GEN, TYP], [("promotion of the checked expression", CORE), ("cast generation", GEN)], AI)

prop("C06", "Every name refers to the declaration the scoping rules give it",
     "A use of a name reads or writes the innermost visible declaration that precedes it, never one of a sibling block, of another function's locals "
     "or of a block that has ended; using a name that has no visible declaration is rejected. Functions see globals, and a local or parameter hides a global "
     "of the same name only inside its scope.",
     ["programs"], "every arrangement of declarations and uses of the same names over nested blocks, functions, methods and patterns",
     SAMPLED + "few of them reuse a name in several scopes, and none checks which variable is read.",
     [CORE, A + "symbols/core.py", GEN], [("scope resolution", A + "symbols/core.py"), ("variable loads and stores", GEN)], AI)

prop("C07", "Clashing, misplaced or malformed declarations are rejected, valid ones kept",
     "A second declaration of a name in the same scope, a declaration of a type or function in a place that does not allow it, a use of a reserved or "
     "undeclared type, and duplicated parameters, fields or variants are rejected on the line of the offending declaration. A declaration that is valid is never "
     "rejected and takes effect exactly once with its initial value or the zero value of its type.",
     ["programs"], "every pair of declaration kinds of one name in one or two scopes, and every kind of declaration in every place",
     SAMPLED + "they contain a few of the clashing pairs.",
     [CORE, PARSE], [("declaration checks", CORE), ("placement checks", PARSE)], AI)

prop("C08", "Functions with a result return on every path, and jumps stay in their construct",
     "A function or method with a result type is accepted only if every path through its body that ends returns a value of that type; retorna outside a function, "
     "quebra and continua outside a loop, and produz outside a match arm are rejected wherever they are nested. Bodies that do satisfy these rules are accepted.",
     ["programs"], "every nesting of statements as a function body and every placement of the jump statements",
     SAMPLED + "they hold a few bodies with a missing return and a few misplaced jumps.",
     [CORE, PARSE], [("return analysis", CORE), ("loop and yield context", CORE)], AI)

prop("C09", "Matching takes the first arm that fits, binds its parts, and must be exhaustive",
     "An iguala runs the first arm whose pattern matches the value, with each pattern variable bound to the part it stands for, and evaluates the matched value once. "
     "A match that leaves some value uncovered or has a pattern that does not fit the type is rejected; every other match is accepted, also one with an arm that is never reached.",
     ["programs", "inputs"], "every list of patterns over unions (nested and recursive), ints and texts, and every value matched",
     SAMPLED + "they hold a dozen matches; arm order and nested patterns are exponential in number.",
     [EXH, CORE, GEN], [("decision tree construction", EXH), ("tree to bytecode", GEN)], AI)

prop("C10", "Records hold in each field the value given to it",
     "A record is built with exactly its declared fields, each given once in any order, and later reads of a field give the value last stored in that field of that object "
     "through any alias; missing, repeated, unknown or ill-typed fields are rejected.",
     ["programs", "histories"], "every record type, order of arguments and sequence of field reads and writes through aliases",
     SAMPLED + "field order and aliasing are not observed by compile-only tests.",
     [CORE, GEN, TRANS], [("record construction and property access", GEN), ("field checks", CORE)], AI)

prop("C11", "Calls pass every argument to its parameter and give back the returned value",
     "A call runs the named function or method with each argument, evaluated once from left to right, in the parameter of the same position, and yields what that invocation returned; "
     "methods receive the object they are called on. Calls with a wrong number of arguments, on values that are not functions, or of unknown methods are rejected.",
     ["programs", "inputs"], "every function and method signature, call position and depth of recursion or nesting of calls",
     SAMPLED + "argument passing is only visible when the compiled program runs.",
     [CORE, GEN, TRANS], [("call generation and local slots of parameters", GEN), ("method call rewriting", TRANS)], AI)

prop("C12", "Live local variables never share storage",
     "Two variables that are alive at the same time (parameters, locals of nested blocks, loop variables, pattern variables and hidden temporaries) never share a storage slot, "
     "so that a variable keeps its value until it is assigned; a variable declared again in a new round of a loop starts from its initial value.",
     ["programs", "histories"], "every nesting of blocks, loops, matches and escolha with declarations in any of them",
     SAMPLED + "slot numbers are never examined by the tests.",
     [GEN, CORE, A + "symbols/core.py"], [("slot allocation", GEN), ("unique ids of locals", CORE)], AI)

prop("C13", "Vectors keep their elements, and builtin vector operations do what they say",
     "Reading an element gives the value last stored at that position of that vector through any alias, anexa appends, remova takes out and returns the element at its index, tam is the number "
     "of elements, and vec and vector literals build the shape that is written. Indexing with a non-int, indexing or changing values that are not vectors, and ill-typed elements are rejected.",
     ["programs", "histories"], "every element type, nesting of vectors and sequence of reads, writes and builtin calls",
     SAMPLED + "they never observe the contents of a vector.",
     [CORE, GEN, "std/embutidos.ama"], [("index expressions", GEN), ("element and builtin typing", CORE)], AI)

prop("C14", "Optionals hold a value or nulo and open only through valor and valor_ou",
     "An optional compares equal to nulo exactly when it holds no value, valor yields the value held or fails at run time, and valor_ou yields the value held or its argument. Using an optional "
     "where a plain value is expected, or nulo where no optional is expected, is rejected.",
     ["programs", "inputs"], "every optional type and position, for held values and for nulo",
     SAMPLED + "they contain few optionals and never observe what is taken out of one.",
     [CORE, TRANS, GEN], [("unwrap rewriting", TRANS), ("optional generation", GEN), ("optional typing", CORE)], AI)

prop("C15", "Imported modules run once, in order, and are seen through exactly the imported names",
     "A program sees exactly the items it imports (by alias, by list or all), each meaning the imported module's own definition and state, however many modules import it; each module runs "
     "once, after the modules it imports and before the module importing it. Missing modules or items, cycles, clashes and writes to another module's variables are rejected, in the module and on the line where they occur.",
     ["programs", "configurations"], "every shape of the import graph and form of import, with functions, variables, records, unions and methods across modules",
     SAMPLED + "their modules are few and the order and identity of module state is not observed.",
     [CORE, TRANS, GEN, A + "module.py"], [("module loading", CORE), ("cross-module names", TRANS), ("module table", GEN)], AI)

prop("C16", "Literals, names and layout mean exactly what is written",
     "Every literal (whole number, real, text with its escapes, text with interpolated parts, truth value, nulo) denotes exactly the value it spells wherever it stands: different spellings of "
     "different values are never confused with one another, and a text never turns into a value of another kind. Names are compared whole and never taken for keywords or other names; spaces, comments, "
     "blank lines, the choice of quotes and the end of the file change nothing. Characters and literals that the language does not have are rejected on the line where they stand.",
     ["programs", "inputs"], "every literal, name, comment and layout, in every position where one may be written",
     SAMPLED + "the lexer tests compare the kinds of a few tokens; nothing follows a literal to the constant the machine loads.",
     [PARSE, GEN, A + "tokens.py", LOAD], [("lexer", PARSE), ("constant table", GEN), ("constants read back from their text", LOAD)], AI)

prop("C17", "Exactly the texts of the language are accepted, and no text breaks the compiler",
     "Every source text is either rejected with a diagnosis on the line at fault or accepted and then does what its grammar and types say it means; the compiler never breaks down, hangs or accepts a "
     "text it has to guess a meaning for. In particular a text in which a word of a valid program is left out, repeated, exchanged, replaced or added is accepted only when the result is itself a program of the language, with that program's meaning.",
     ["programs"], "every text within one word of the programs that together use every production of the grammar, and every assignment target, valueless expression and type path in every position",
     SAMPLED + "the invalid programs among them are a few dozen, and what an accepted odd text compiles to is not looked at.",
     [PARSE, CORE, TRANS, GEN], [("grammar productions", PARSE), ("checks of what may be used where", CORE), ("transformations of the tree", TRANS)], AI)

prop("C22", "Failures are attributed to the line of the statement that fails, at every frame",
     "When a program fails while it runs, the line reported for the failing point and for each active call is the line of the statement being executed there in that function's module, "
     "whatever blank lines, comments, nesting, multi-line statements, conditions, loop headers and match arms surround it. The line of a rejected construct is likewise that of the construct.",
     ["programs", "inputs"], "every point of every program at which execution can stop, on every path, and every active call at that moment",
     SAMPLED + "they never look at the line table of a compiled program.",
     [GEN, PARSE, TRANS, VM], [("line table built during generation", GEN), ("lines of tokens and nodes", PARSE),
                               ("lookup of the line of an instruction", VM)], AI)

MAIN, ERR, LIB, DUMP, OPC = "amanda/__main__.py", A + "error.py", "amanda/libamanda.py", A + "bindump.py", "amanda/vm/src/opcode.rs"
COMMAND = ("abstract interpretation of the source of the command (arguments, front end, code generator, diagnosis, call of the machine) over program schemas, "
           "with the machine's status unknown")

prop("C18", "A rejected program is never started; an accepted one is started once, whole",
     "The command diagnoses a rejected program on standard error with its file, line, the text of that line and the reason, ends with a nonzero status, and neither starts the machine nor writes a file. "
     "An accepted program is handed to the machine exactly once and entire, nothing else is printed, and the status is zero exactly when the machine's is. "
     "Missing files and wrong arguments are diagnosed, and only --debug writes, one file.",
     ["programs", "configurations"], "every program, accepted or rejected anywhere in its modules, every way to write its path and the options, and every status of the machine",
     SAMPLED + "they call the compiler's classes and never look at what the command prints, writes, hands over or ends with.",
     [MAIN, ERR, LIB, GEN], [("argument handling and the order of the phases", MAIN), ("diagnosis with the source line", ERR), ("call of the machine", LIB)], COMMAND)

prop("C19", "Every image handed to the machine is well formed on every path",
     "In the image of every accepted program each byte of code belongs to one instruction, each operand indexes an existing constant, name, function, record or local of its frame, each jump meets an instruction of the "
     "same function, and each function's code ends in a return or halt. On no path does an instruction take from the operand stack a value its function did not put there.",
     ["programs"], "every path, feasible or not, through every function of every module of the image of every accepted program",
     SAMPLED + "they compare the text form of a few programs and never decode an image or follow its jumps.",
     [GEN, VM, LOAD, OPC], [("labels, locals and tables during generation", GEN), ("decoding of instructions and frames", VM), ("reading of the image", LOAD)],
     "decoding with the tables read from the machine's source, and a dataflow analysis (stack heights, locals) over the control flow graph of every function of the abstractly compiled image")

prop("C20", "Instructions are encoded as the machine decodes them, at any size of program",
     "Every instruction is written with the number, operand widths and byte order the machine reads, and occupies the bytes it is counted with. A program of any size (elements, arguments, fields, variants, constants, "
     "names, locals, nesting, jumps) works as it says or is rejected with a diagnosis on its line; an operand is never cut to fit.",
     ["programs", "inputs"], "every instruction with every operand at the boundaries of its width, and every construct with more and more parts up to and beyond the limits of the format",
     SAMPLED + "none of them is near a limit of the format.",
     [GEN, OPC, VM], [("numbers, widths and limits of operands", GEN), ("numbers of the instructions", OPC), ("decoding of operands", VM)],
     "abstract interpretation of the encoder on operand boundaries, decoded with the numbers and widths extracted from the machine's source; abstract compilation of programs at the limits")

prop("C21", "The loader reads back exactly what the compiler wrote",
     "Serialising a program's image and reading it by the machine's rules gives back the same document: every key the machine asks for is there with the type it expects, and numbers, texts (in any script), "
     "code bytes, nested modules and lists of any length come back unchanged. A value the format cannot hold is refused.",
     ["inputs", "programs"], "every document of the kinds of values images are made of, at every boundary of the format, and the image of every program",
     SAMPLED + "none reads a serialised image back.",
     [DUMP, LOAD, GEN], [("writing of documents", DUMP), ("reading of documents", LOAD), ("keys of the image", GEN)],
     "abstract interpretation of the serialiser over documents and compiled schemas; its bytes are decoded by the loader's rules and the read image is translation-validated")

prop("C23", "The same source always gives the same image and the same diagnosis",
     "Compiling the same files again gives the same image, diagnosis, output and status whatever the host chooses anew on every run (order of the elements of sets, hashes and addresses of objects, clock, random numbers) and however the path of the file is written.",
     ["programs", "schedules"], "every program, accepted or rejected, and every choice the host makes anew on a run",
     SAMPLED + "a single run under one hash seed cannot show a dependence on it.",
     [EXH, CORE, GEN, TYP], [("missing patterns of a match", EXH), ("tables of names and constants", GEN)],
     "abstract interpretation of the command under different values of what the host chooses anew on every run, with the outcomes compared")

prop("C24", "The patterns reported as missing from a match are exactly what is missing",
     "When a match is rejected because it leaves values out, every pattern the diagnosis lists is a pattern of the matched type that fits some value no arm covers, none is listed twice, and with all listed patterns added the match leaves no value out.",
     ["programs"], "every list of patterns over unions (nested and recursive), ints and texts that leaves some value out",
     SAMPLED + "they look at the exit status of a few non-exhaustive matches and not at the patterns named.",
     [EXH, CORE, A + "check/iguala.py"], [("decision tree with failing leaves", EXH), ("missing patterns of the failing leaves", A + "check/iguala.py")],
     "abstract interpretation of the checker over match schemas; the listed patterns are decided with an independent usefulness algorithm")

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append({"property": id, "reason": reason})


def main():
    from sa.checks import CHECKS
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            p = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    nas = {n["property"] for n in NA}
    checks = []
    for p in P:
        if p["id"] in nas:
            continue
        c = CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": f"python3 -m sa.run {p['id']} --tier quick",
                       "thorough_cmd": f"python3 -m sa.run {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": c.level,
                       "level_note": p["note"] or NOTE.get(c.level, "")})
    m = {"version": 1, "setup_cmd": "python3 -m sa.setup", "checks": checks, "not_applicable": NA,
         "notes": "All checks run from /verif with the system python3 and the standard library only; SA_REPO overrides the "
                  "analysed tree (default /repo). known_findings.txt lists recorded and fixed defects."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
    print(len(P), "properties", len(checks), "checks")


NOTE = {"translation_validation": "static: the compiler's source is interpreted abstractly, never run; holds for every value of the opaque "
                                  "leaves of every schema listed in the evidence, not for program shapes outside the families",
        "exploration": "static: the source is interpreted abstractly and its results analysed, never run; holds for the schemas listed in the evidence, all their paths, and every value of their opaque leaves"}

if __name__ == "__main__":
    main()
