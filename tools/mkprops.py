#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that ids, text and anchors stay in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
EV = "src/bms/evaluation/operations.cpp"
prop("V01", "Operators compute exact fixed-width arithmetic",
 "Every unary and binary operator applied to known Bool, Int and Uint(N) values (every N from 1 to 128) yields the mathematically defined result: two's-complement wrap-around modulo 2^N for Uint(N), unsigned division and comparison for Uint, truncating signed division for Int (whenever the exact result fits 128 bits), boolean algebra for Bool. "
 "Division or remainder by zero is reported as division by zero, and a shift by N or more as an excessive shift; an operand of the wrong type is a type error, never a value. An Int operand meeting a Uint(N) operand is first converted losslessly to Uint(N) or the operation fails with a range error.",
 ["inputs"], "all operators, all operand types and widths 1..128, all operand values",
 "The test programs evaluate a few small literals; no test exercises widths near 128, wrap-around, unsigned division, shifts at the boundary or mixed Int/Uint operands.",
 [EV, "src/bms/concrete_value.hpp", "src/bms/concrete_type.hpp"],
 [("constant evaluation of operators", EV), ("masking to the width", "src/bms/concrete_value.hpp")],
 ["values of constants", "evaluation error code"])
prop("V02", "Integer literals and Int-to-Uint conversion are exact or refused",
 "An integer literal in binary, octal, decimal or hexadecimal notation denotes exactly the number its digits spell in that base, and a literal whose value does not fit in 128 bits is refused as invalid. "
 "Converting an Int to Uint(N), whether by an explicit conversion, a declared type, an argument, an assignment or a return, preserves the value if it lies in 0..2^N-1 and is otherwise refused with a range error; converting a type to itself changes nothing and every other conversion is refused as incompatible.",
 ["inputs"], "all literal spellings, all values and all pairs of types",
 "The tests contain a handful of short literals and one failing `as`; no overflow, no upper-case digits, no boundary values.",
 ["src/common/parse.cpp", "src/bms/concrete_value.hpp", "src/bms/analyze.cpp", "src/bms/vm/codegen.cpp"],
 [("literal parsing", "src/common/parse.cpp"), ("conversion of values", "src/bms/concrete_value.hpp")])
prop("T01", "Expressions are accepted exactly when well typed, with the right error",
 "For every operator, conversion, conditional expression, call, initialisation, assignment, return, condition and width, the program is accepted exactly when the operand types satisfy the language's typing rules, and a constant whose type is not declared gets the rule's result type. "
 "When a rule is broken, the diagnostic names the category of that violation (arithmetic, bitwise or relational use of Bool, bitwise or logical use of Int, logical use of Uint, use of Void, incompatible types, incompatible widths, non-Bool condition, non-integer or out-of-range width).",
 ["programs", "inputs"], "all expressions built from typed operands",
 "One test per error category with one operand combination each.",
 [EV, "src/bms/analyze.cpp"], [("operator typing", EV), ("expression analysis", "src/bms/analyze.cpp")])
prop("X01", "Short-circuit and conditional operators evaluate only what they select",
 "The right operand of && and || is evaluated only when the left operand does not already decide the result, and of a conditional expression only the selected branch is evaluated, so an error in an unevaluated operand never makes a constant evaluation fail and an error in an evaluated one always does. "
 "This holds alike in constants, static assertions and function bodies run at compile time, and unevaluated operands are still type-checked.",
 ["programs"], "all nestings of &&, || and conditional expressions over failing and non-failing operands",
 "A single test selects one branch of a conditional expression; short-circuiting inside called functions is untested.",
 ["src/bms/analyze.cpp", "src/bms/vm/codegen.cpp", EV],
 [("analysis of the unselected operand in a non-constant context", "src/bms/analyze.cpp"), ("conditional jumps", "src/bms/vm/codegen.cpp")])
prop("X02", "Functions run at compile time follow structured control flow",
 "A function evaluated at compile time executes its statements in order with the usual meaning of blocks, if / else-if / else, while, break and continue (binding to the innermost enclosing loop), variable initialisation, assignment and return, and the call's value is the value of the return statement reached, converted to the declared return type. "
 "The result is the same as executing the function's text directly on the argument values, whatever the nesting of loops and branches; reading a variable that was never given a value is an error.",
 ["programs", "inputs"], "all function bodies and all argument values",
 "One test runs one loop; nesting, break/continue placement, early returns and conversions on assignment are never exercised.",
 ["src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp", "src/bms/analyze.cpp"],
 [("compilation of statements to stack code", "src/bms/vm/codegen.cpp"), ("execution", "src/bms/vm/vm.cpp")])
prop("X03", "Calls pass arguments by position and are isolated from each other",
 "In a compile-time call every parameter holds the argument at its position, converted to the parameter's type; the callee sees no variable of its caller and the caller's variables and pending operands are unchanged by the call, at any depth and in any order of nested calls. "
 "The same call with the same arguments yields the same value wherever and whenever it occurs; a wrong number of arguments, a call of something that is not a function, and a compile-time evaluation that needs the function being evaluated (direct or mutual recursion) are refused with their own diagnostics.",
 ["programs", "histories"], "all call graphs, argument lists and orders of evaluation",
 "Tests call functions of at most one parameter and never nest calls.",
 ["src/bms/analyze.cpp", "src/bms/vm/codegen.cpp", "src/bms/vm/vm.cpp", "src/bms/vm/linear_map_stack.hpp"],
 [("call analysis", "src/bms/analyze.cpp"), ("frames", "src/bms/vm/linear_map_stack.hpp")])
prop("X04", "Static assertions, assertions and requires-clauses decide acceptance",
 "A program is refused with a static-assertion failure exactly when a static assertion that is analysed evaluates to false, a compile-time evaluation that executes an assert with a false argument is refused with an assertion failure, and a function that is analysed is refused exactly when its requires-clause is not Bool or evaluates to false. "
 "A failed static assertion or assert whose argument is a comparison reports the two values that were compared, and only such a failure does.",
 ["programs"], "all programs with assertions at global, function and instance level",
 "The tests check literal conditions; the compared values and assertions reached only on some paths are unchecked.",
 ["src/bms/analyze.cpp", "src/bms/vm/vm.cpp"], [("static assertions", "src/bms/analyze.cpp"), ("assert builtin", "src/bms/vm/vm.cpp")])
prop("N01", "Names resolve to the declaration in scope; bad names are refused",
 "Every use of a name refers to the global, parameter or enclosing-block declaration of that name that is in scope at that point, and using a name with no declaration in scope is refused with the diagnostic for that kind of use (variable, assignment or call). "
 "Declaring a name that is already declared in the same or an enclosing scope is refused with the diagnostic for the kind of the second declaration, names of closed sibling blocks may be reused, and using a constant or variable before the point where it is defined is refused.",
 ["programs"], "all arrangements of declarations, nested blocks and uses",
 "Each diagnostic has one fixed example; sibling scopes and nested scopes are untested.",
 ["src/bms/analyze_name_lookup.cpp", "src/bms/symbol_table.hpp", "src/bms/analyze.cpp"],
 [("scope walk", "src/bms/analyze_name_lookup.cpp"), ("symbol table", "src/bms/symbol_table.hpp")])
prop("N02", "Constants, variables and parameters are used only as their kind allows",
 "Assigning to a parameter, a constant or a function, using a variable or parameter where a constant expression is required (constant initialisers, static assertions, widths, requires-clauses), using a function as a value, break or continue outside a loop, and an empty return in a non-Void function are each refused with their own diagnostic. "
 "A constant keeps the single value of its initialiser for every use, and nothing refuses a program that does none of these.",
 ["programs"], "all programs",
 "One example per diagnostic; no test shows that nesting (loops inside ifs, constants inside functions) does not change the verdict.",
 ["src/bms/analyze.cpp"], [("assignment, control and id analysis", "src/bms/analyze.cpp")])
prop("G01", "A bit-generic function behaves as its instance at the deduced widths",
 "Calling a function whose parameter widths are undeclared names binds each such width to the width of the argument at that position and behaves exactly as if the function had been written with those widths as constants: same values, same typing errors, same static assertions and requires-clauses. "
 "Instances are independent of each other and of the order in which they are created, an argument that is not a Uint is refused as a deduction failure.",
 ["programs", "inputs"], "all generic functions, widths and sequences of calls",
 "Two tests instantiate trivial functions once; bodies with locals, calls, several widths or several instances are untested.",
 ["src/bms/instantiate.cpp", "src/bms/analyze.cpp", "src/bms/analyze_name_lookup.cpp"],
 [("deduction", "src/bms/analyze.cpp"), ("cloning an instance", "src/bms/instantiate.cpp")])
prop("A01", "Annotations are accepted exactly when their schema is satisfied",
 "An annotation is accepted exactly when its name is known, it is applicable to the construct it decorates, and its arguments match the annotation's parameters by position or name with the required types and allowed values and without duplicates, excess or omissions of required ones. "
 "Otherwise the program is refused with the diagnostic for the violated requirement, and accepted annotations never change the meaning of the program.",
 ["programs", "inputs"], "all annotation names, targets and argument lists",
 "One example per diagnostic out of ten annotations with up to three parameters each.",
 ["src/bms/analyze_annotations.cpp", "src/bms/annotation.hpp"], [("annotation resolution", "src/bms/analyze_annotations.cpp")])
prop("R01", "Every source text gets a verdict, never an internal failure",
 "For every input text, compiling a bit-manipulation script ends either in success or in exactly one reported diagnostic of the stage that failed (tokenisation, parsing, analysis or compile-time execution). "
 "It never ends in an internal assertion, an unexpected exception, a crash, undefined behaviour or a hang (other than a compile-time evaluation that really loops forever).",
 ["inputs", "programs"], "all byte strings and all programs, including ones mutated from valid programs",
 "The tests run about sixty fixed files.",
 ["src/bms"], [("whole pipeline", "src/bms/analyze.cpp"), ("tokenizer", "src/bms/tokenization/tokenize.cpp"), ("parser", "src/bms/parsing/parse.cpp")])
prop("L01", "Tokenising a script partitions it into longest-match tokens",
 "Every script is split, left to right, into the longest tokens the language defines, with only whitespace between them: each token has the right kind (keyword, identifier, each literal notation, operator, comment, string), and its recorded begin offset, length, line and column describe exactly its characters in the text. "
 "A script is refused exactly when some position starts no token, and then with the diagnostic for that cause (illegal character, missing digits after a prefix, a letter or digit directly after an integer, unterminated comment, unterminated string) at that position.",
 ["inputs"], "all character strings",
 "Four tests check the error code of one text each; no test checks a token's kind, extent or position.",
 ["src/bms/tokenization/tokenize.cpp", "src/common/parse.cpp"], [("tokenizer", "src/bms/tokenization/tokenize.cpp"), ("lexical matchers", "src/common/parse.cpp")])
prop("P01", "The parser accepts the documented grammar and builds its tree",
 "A token sequence is accepted exactly when it derives from the language's grammar, and the resulting tree is the grammar's: operands, operators, declarations, statements, annotations and their order are preserved, arithmetic associates left to right, and grouping follows parentheses and the grammar's operator rules. "
 "A refused sequence is reported at the token where the grammar can first no longer continue.",
 ["inputs", "programs"], "all token sequences",
 "Twelve fixed files are only checked for acceptance or the line of the error; tree shape is never checked.",
 ["src/bms/parsing/parse.cpp", "src/bms/parsing/grammar.ebnf", "src/bms/ast.cpp"], [("recursive descent parser", "src/bms/parsing/parse.cpp"), ("tree transformation", "src/bms/ast.cpp")])
prop("M01", "The virtual machine is an exact stack machine with call frames",
 "Each instruction changes the operand stack, the current frame's variables and the next instruction address exactly as documented, popping before pushing and jumping relative to the following instruction; calls open a fresh frame and returns restore the caller's frame and address. "
 "Instead of misbehaving, the machine stops with the documented error for a missing operand, an uninitialised variable, a return without a call, a non-Bool jump condition, a jump or call out of the program, a failing operation, or an instruction that jumps to itself.",
 ["programs", "histories"], "all instruction sequences and initial stacks",
 "No test drives the machine directly; it is reached only through a few compiled functions.",
 ["src/bms/vm/vm.cpp", "src/bms/vm/vm.hpp", "src/bms/vm/linear_map_stack.hpp"], [("one machine cycle", "src/bms/vm/vm.cpp"), ("frame stack", "src/bms/vm/linear_map_stack.hpp")])
prop("C01", "Regenerated script code has the same structure as the original",
 "Generating script code from an accepted program yields text that is again accepted by the parser and whose tree has the same declarations, statements, expressions and operator grouping as the original, under every formatting option. "
 "Highlight spans reported with the text lie inside it, in order and without overlap.",
 ["programs", "configurations"], "all accepted programs without annotations, all formatting options",
 "No test runs the code generator.",
 ["src/bmd/codegen/codegen_bms.cpp", "src/bmd/codegen/generator_base.hpp", "src/bmd/codegen/code_string.hpp"], [("script generator", "src/bmd/codegen/codegen_bms.cpp")])
prop("C02", "Generated C and C++ code keeps the program's structure",
 "The C and C++ code generated from an accepted program is well-formed and contains every non-generic function with the same name, parameter order, statements, nesting, operator grouping and constant values as the script, using types of the matching width. "
 "A width the target cannot express is refused as unsupported instead of being approximated.",
 ["programs", "configurations"], "all accepted programs in the expressible subset, all dialect options",
 "No test runs the code generator.",
 ["src/bmd/codegen/codegen_c_cpp.cpp"], [("C and C++ generator", "src/bmd/codegen/codegen_c_cpp.cpp")])
prop("D01", "Parsing a markup document preserves its text and structure",
 "Every markup document is either parsed into the sequence of paragraphs, text, and directives with arguments and content that its text spells, in order, or refused with a diagnostic; comments vanish and empty lines separate paragraphs. "
 "Block directives never end up inside running text, and the parser never fails internally or loops.",
 ["inputs"], "all character strings",
 "No test parses a markup document.",
 ["src/bmd/parsing/parse.cpp", "src/bmd/parsing/grammar.ebnf", "src/bmd/enums.cpp"], [("document parser", "src/bmd/parsing/parse.cpp")])
prop("H01", "The HTML writer emits well-formed, escaped, correctly indented markup",
 "Any permitted sequence of writer operations yields markup in which every opened element is closed in nesting order, attributes sit inside their opening tag, and text contributes exactly its characters with markup-significant ones escaped. "
 "An operation that is not permitted in the current position is rejected, and line breaks and indentation follow the current nesting depth.",
 ["histories"], "all sequences of writer operations",
 "No test uses the writer.",
 ["src/bmd/html/html_writer.cpp"], [("writer state machine", "src/bmd/html/html_writer.cpp")])
prop("H02", "A document is rendered to HTML with all its content in order",
 "Rendering a parsed document yields one well-formed HTML page whose elements mirror the document's paragraphs and directives one to one and in order, with each directive's tag, arguments and text content, and with all text escaped so that it displays as written. "
 "A construct that cannot be rendered is reported as a rendering error and never produces a partial element silently.",
 ["inputs"], "all parsed documents and options",
 "No test renders a document.",
 ["src/bmd/html/doc_to_html.cpp", "src/bmd/html/html_writer.cpp"], [("document to HTML", "src/bmd/html/doc_to_html.cpp")])
prop("H03", "Code highlighting reproduces the source text exactly",
 "Highlighting a script as HTML emits every character of the source from its first token to its last exactly once and in order, including comments and whitespace, with each token wrapped in the formatting of its kind. "
 "Source that cannot be tokenised is reported as a diagnostic instead; a snippet that tokenises is highlighted even if it is not a complete program.",
 ["inputs"], "all scripts, inline and block",
 "No test highlights code.",
 ["src/bmd/html/bms_to_html.cpp"], [("highlighting", "src/bmd/html/bms_to_html.cpp")])
prop("I01", "Command-line exit status and output match the compilation verdict",
 "The verify command exits with success exactly when the given script compiles without error, every other command exits with success exactly when it produced its complete output, and every failure, including unreadable files and wrong usage, gives a failing status and a message. "
 "The token dump lists every token of the script in order.",
 ["inputs", "configurations"], "all commands, option orders and input files",
 "The command-line program is never run by a test.",
 ["src/cli/main.cpp", "src/cli/compile.cpp"], [("command dispatch", "src/cli/main.cpp")])
prop("I02", "Diagnostics point at the offending construct",
 "An error diagnostic carries the line of the construct that violates the rule, and where another declaration or expression is the cause also the line of that one, however the program is laid out. "
 "A printed diagnostic names the file and that 1-based line and shows that source line's text.",
 ["programs"], "all refused programs and layouts",
 "Tests check line numbers for one layout per diagnostic and never check printed text.",
 ["src/bms/analyze.cpp", "src/common/diagnostics.cpp", "src/bms/debug_info.hpp"], [("error construction", "src/bms/analyze.cpp"), ("printing", "src/common/diagnostics.cpp")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
