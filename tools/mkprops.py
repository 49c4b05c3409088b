#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property list)."""
import json, pathlib
R = "src/wizard/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            state=[dict(name=n, meaning=m, where=R+w) for n, m, w in state],
            mechanism=[dict(name=n, where=R+w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Statements run in order, once each, and every effect is threaded on",
  "The statements of a script run in textual order, each exactly once, and each one sees exactly the variables and installer state left by the previous one. An assignment sets only its variable to the value of its right-hand side, a compound assignment combines the old value and the right-hand side with its operator (an unset variable is a name error), and side effects of an expression (x++, x--, EditINI, ...) persist wherever that expression occurs. The state passed in by the caller and the state visible on an already executed context are never changed.",
  ["programs", "inputs"], "every script built from assignments, compound assignments, increments, function calls and nested blocks",
  "Tests run about ten fixed scripts with a single final-value assertion; none looks at intermediate states, at effects of expressions inside keyword arguments, select options or Exec arguments, or at the states of earlier contexts.",
  ["contexts/contexts.py", "contexts/factory.py", "state.py", "runner.py", "expr.py"],
  [("body child cursor", "contexts/contexts.py:WizardBodyContext.exec_"), ("copy_parent / copy_context state hand-over", "contexts/factory.py"), ("assignment contexts", "contexts/contexts.py:WizardAssignmentContext, WizardCompoundAssignmentContext"), ("state copy", "state.py:WizardInterpreterState.copy, runner.py:WizardRunnerState.copy")],
  [("variables", "name -> value", "state.py"), ("_ichild", "next statement of the body", "contexts/contexts.py")],
  ["WizardScriptRunner.context().state", "function callbacks", "result of run()"])
p("C02", "If runs exactly the first branch whose condition is true",
  "An If statement evaluates its conditions in order, stops at the first true one and runs only that branch; the Else branch runs only when every condition is false, and no branch runs if there is none. Conditions after the first true one are not evaluated, effects of evaluated conditions persist, and execution then continues after EndIf.",
  ["programs", "inputs"], "every If/Elif/Else chain, nested anywhere, with conditions of every value type",
  "test_if covers four fixed integer chains and never observes how many conditions were evaluated.",
  ["contexts/contexts.py", "value.py"], [("WizardIfContext.exec_", "contexts/contexts.py"), ("truth of a value", "value.py:Value.__bool__")], (), ["calls made by conditions and branches", "result of run()"])
p("C03", "For loops visit exactly their sequence, inclusive, in order, header once",
  "A range loop visits start, start+step, ... up to and including the last value not past the end bound, in either direction (step defaults to 1); a For-in loop visits the sub-packages, the files of a sub-package or the characters of a string in order. The header is evaluated exactly once before the first iteration, the loop variable is set before each iteration and keeps its last value afterwards, and an empty sequence leaves it unset or unchanged.",
  ["programs", "inputs"], "every pair of bounds and step of either sign, every iterable, any nesting and any change of the loop variable in the body",
  "test_forloop uses three ascending loops; descending loops, empty ranges, bodies that reassign the loop variable and side effects in headers are never run.",
  ["contexts/contexts.py"], [("WizardForLoopContext", "contexts/contexts.py")], [("_values/_index", "remaining iteration", "contexts/contexts.py")], ["calls made by the body", "result of run()"])
p("C04", "While re-tests its condition before every iteration",
  "A While loop evaluates its condition before each iteration, in the state left by the previous iteration, runs its body as long as the condition is true and continues after EndWhile at the first false evaluation, with the effects of every evaluation of the condition kept.",
  ["programs", "inputs"], "every condition and body, including side effects in the condition, nesting and Break/Continue inside",
  "Two fixed loops in test_whileloop; evaluation counts and side effects of the condition are not observed.",
  ["contexts/contexts.py"], [("WizardWhileLoopContext.exec_", "contexts/contexts.py")], (), ["calls made by condition and body", "result of run()"])
p("C05", "Break and Continue act on the innermost enclosing target only",
  "Break leaves the innermost enclosing For, While or Select case, and Continue starts the next iteration of the innermost enclosing For or While, through any number of If, Case and Exec levels in between, with all effects up to that point kept and no later statement of the abandoned blocks executed. Without such a target either one is a parse error.",
  ["programs"], "every nesting of loops, selects, conditionals and Exec around the statement",
  "No test contains Continue at all, and Break only occurs directly inside a Case.",
  ["contexts/contexts.py"], [("WizardBreakContext / WizardContinueContext parent walk", "contexts/contexts.py"), ("break_ / continue_ of loops and select", "contexts/contexts.py")], (), ["calls made by statements", "result of run()"])
p("C06", "Select prompts show the script's description, options and defaults",
  "A SelectOne or SelectMany statement asks the user exactly once each time it is reached, with the evaluated description and all options in script order (name without the leading '|' mark, description, image or none when blank); the defaults are exactly the marked options, in order. For SelectOne the default is the only marked option, the first option if none is marked, and several marks are reported as the corresponding issue with the first one used.",
  ["programs", "inputs"], "every option list, marks, expressions in options, and severity setting",
  "Tests look at one two-option prompt; marks on several options, blank images, repeated prompts in loops and SelectMany defaults are never inspected.",
  ["contexts/contexts.py", "scriptrunner.py", "manager.py"], [("parse_select_options", "contexts/contexts.py"), ("WizardSelectOneContext / WizardSelectManyContext", "contexts/contexts.py"), ("run loop", "scriptrunner.py")], (), ["selectOne()/selectMany() arguments"])
p("C07", "Select cases: chosen cases in order, fallthrough, Default at most once",
  "After a prompt the cases are considered in script order: a Case whose label equals a chosen option's name runs, and without a Break execution falls through into the following cases until a Break; SelectOne ends after the first such run, SelectMany goes on to later matching cases. Default runs (once) only if no case ran or if execution falls through into it, and the statement always finishes and continues after EndSelect.",
  ["programs", "inputs"], "every list of cases (duplicates, missing labels, with or without Break and Default), every user answer, any nesting",
  "Tests fix two options with two cases; a fallthrough into Default, duplicates and Break in nested blocks are not tested.",
  ["contexts/contexts.py"], [("WizardSelectCasesContext.exec_ / break_", "contexts/contexts.py")], [("_index/_found/_fallthrough", "progress through the cases", "contexts/contexts.py")], ["calls made by case bodies", "result of run()"])
p("C08", "Return, Cancel and end of script stop the run with the right status",
  "Return or Cancel at any nesting depth ends the script at once: no later statement has any effect, complete() or cancel() is called exactly once, and run() returns RETURN or CANCEL (COMPLETE at the end of the script) with the state at that point; a Cancel message is available on the termination context. If that callback returns False, the script continues after the Return or Cancel statement.",
  ["programs"], "every position of Return/Cancel in blocks, loops, cases and Exec, and every callback answer",
  "test_cancel checks a one-line script; no test uses Return, a nested Cancel, or a callback that declines to stop.",
  ["contexts/contexts.py", "scriptrunner.py"], [("WizardTerminationContext, WizardCancelContext, WizardReturnContext", "contexts/contexts.py"), ("run loop", "scriptrunner.py:WizardScriptRunner.run")], (), ["complete()/cancel() calls", "result of run()"])
p("C09", "Exec behaves as if its text were written in place",
  "Exec(text) runs the statements of the text in place of the call: they see and change the enclosing variables and installer state, control flow inside them (Break, Continue, Return, Cancel) acts on the enclosing script, and execution then continues after the call. The argument is evaluated exactly once with its side effects kept; anything but exactly one string argument is a type error.",
  ["programs"], "every script and every statement sequence of it moved into an Exec, nested Execs included",
  "test_exec runs one assignment through Exec and three wrong calls.",
  ["contexts/contexts.py"], [("WizardExecContext, WizardTopLevelContext", "contexts/contexts.py")], (), ["calls made by statements", "result of run()"])
p("C10", "A context is an immutable snapshot: rewinding replays from exactly there",
  "Executing a context never changes it or any earlier context: executing it again, any number of times and at any later moment, gives the same outcome. runner.rewind(c) from any callback therefore continues exactly as the script did when c was current, with no trace of the undone execution in variables, sub-packages, plugins, renames, notes or INI tweaks.",
  ["programs", "histories"], "every script, every callback at which a context is saved, and every sequence of rewinds to saved contexts",
  "test_rewind_1/2 rewind a two-variable script; keyword effects, selects, loops, repeated and nested rewinds are not covered.",
  ["contexts/contexts.py", "contexts/factory.py", "contexts/keywords.py", "state.py", "runner.py", "scriptrunner.py"],
  [("copy on exec", "contexts/factory.py:copy_context, copy_parent"), ("state copy", "state.py:copy, runner.py:WizardRunnerState.copy"), ("RewindFlow", "scriptrunner.py:WizardScriptRunner.run")], [("context tree", "contexts reachable through parent", "contexts/contexts.py")], ["runner.context()", "runner.rewind()", "context.exec()", "context.state"])
p("C11", "abort() from any callback cancels the run in the current state",
  "Calling abort() from any callback (function, selectOne, selectMany, complete, error, warning, requiresVersions) stops the current statement, calls cancel() once and, if it returns True, makes run() return CANCEL with the state the current context had before it was executed. If cancel() returns False the current context is executed again; the abort never escapes from run().",
  ["programs", "histories"], "every callback at every point of every script",
  "test_abort aborts once from a plain function call.",
  ["scriptrunner.py"], [("CancelFlow handling", "scriptrunner.py:WizardScriptRunner.run")], (), ["cancel() calls", "result of run()"])
p("C12", "A runtime error stops the script and reaches error() exactly once",
  "When a statement fails, no later statement runs, error() is called exactly once with the exception, and if it returns run() returns ERROR with the state before the failing step; if it raises, the exception leaves run(), and abort() or rewind() called from it work as anywhere else. Undefined names, wrong types, out-of-range indices and syntax errors are reported as the matching Wizard error carrying the line of the failing statement (and the name), which its text tells too.",
  ["programs", "inputs", "fault_sequences"], "every failing construct at every position, and every reaction of the error() callback",
  "test_exceptions checks the exception class of seven one-line scripts through the low-level interpreter; error(), its reactions and the state at the failure are not tested.",
  ["scriptrunner.py", "errors.py", "contexts/utils.py", "expr.py"], [("except clauses of the run loop", "scriptrunner.py:WizardScriptRunner.run"), ("wrap_exceptions", "contexts/utils.py"), ("visitExpr wrapping", "expr.py")], (), ["error() calls", "result of run()"])
p("C13", "Selected sub-packages and plugins behave as case-insensitive sets",
  "The selected sub-packages and plugins are sets of available names compared case-insensitively, reported sorted and without duplicates: selecting a sub-package also selects its plugins, deselecting removes the name completely, SelectAll, DeSelectAll and DeSelectAllPlugins act on everything, and SelectAllPlugins selects exactly the plugins of the selected sub-packages. Selecting a name that does not exist changes nothing and raises the corresponding issue; deselecting an unselected name changes nothing.",
  ["histories", "inputs", "configurations"], "every sequence of selection keywords over every package layout, names in any letter case",
  "The real-world scripts only select each name once; repeated selection, deselection after it, shared plugins and letter case are not tested.",
  ["runner.py", "value.py"], [("WizardRunnerKeywordVisitor", "runner.py"), ("CaseFoldNamedObject", "value.py")], [("_subpackages/_plugins", "selected sets", "runner.py")], ["state.subpackages", "state.plugins"])
p("C14", "Renames, notes and INI tweaks accumulate exactly as scripted",
  "RenamePlugin maps the plugin (case-insensitively) to its latest new name, ResetPluginName removes that entry whatever its letter case, and ResetAllPluginNames removes all of them. Notes are kept in order with duplicates and converted to text, and every EditINI or DisableINILine appends one tweak with its file, section, setting, value and comment, in order; the tweaks of a file are exactly those of that file under any letter case, and its files are listed.",
  ["histories", "inputs"], "every sequence of rename, reset, note and tweak operations",
  "Only the note list of two scripts is compared; renames, resets and tweaks are never asserted.",
  ["runner.py", "tweaks.py", "contexts/keywords.py"], [("WizardRunnerKeywordVisitor", "runner.py"), ("WizardRunnerExpressionVisitor", "runner.py"), ("WizardINITweaks", "tweaks.py")], [("_renames/_notes/_tweaks", "accumulated results", "runner.py")], ["state.renames", "state.notes", "state.tweaks"])
p("C15", "Keyword and manager calls pass arguments and results through unchanged",
  "Every keyword (and its Espm alias) and every manager function called by a script reaches the matching callback exactly once, with the evaluated arguments in order, omitted optional ones absent or None (an empty RequireVersions version counts as omitted), and the value it returns is the value of the call. Too few or too many arguments, or an argument of the wrong type to a manager function, is a type error without any callback being made.",
  ["programs", "inputs"], "every keyword and function, every number and type of arguments, every returned value",
  "One RequireVersions call and DataFileExists with one argument are exercised; optional and variable arguments, aliases and wrong calls are not.",
  ["contexts/keywords.py", "functions.py", "scriptrunner.py"], [("_get_args / make_keyword_context", "contexts/keywords.py"), ("wrap_function / make_manager_functions", "functions.py"), ("WizardScriptRunnerKeywordFactory", "scriptrunner.py")], (), ["manager callbacks", "requiresVersions()"])
p("C16", "Each issue is ignored, warned about or raised as configured, per runner",
  "An issue (unset variable, several SelectOne defaults, non-string note, missing sub-package or plugin) raises its exception under ERROR, calls warning() once (with a text that names the variable, sub-package or plugin) and continues with the fallback under WARNING, and continues silently under ALLOW. The severity is the one set for that issue on that severity context, else that context's default (WARNING initially), independently of every other runner or context in the process.",
  ["histories", "configurations"], "every sequence of set_severity/set_default_severity on several contexts interleaved with issues",
  "No test ever sets a severity.",
  ["severity.py", "expr.py", "runner.py", "contexts/contexts.py", "contexts/keywords.py"], [("SeverityContext", "severity.py")], [("_context/_default_severity", "settings of one context", "severity.py")], ["warning() calls", "exceptions"])
p("C17", "Operators compute typed values or a type error, for every operand pair",
  "For every pair of operand types, each operator either yields the specified value with the specified type or is a type error: arithmetic on numbers (booleans count as 0/1), + also on two strings, ordering on two numbers or two strings, equality on any two values, the ':' variants case-insensitively on two strings only. Unary minus takes numbers but not booleans, 'not' and 'or' give booleans, and the truth of a value is that of a non-zero number, non-empty string or non-empty list.",
  ["inputs"], "all operators over all operand types and boundary values",
  "test_expr tries a few dozen expressions, mostly on integers, with four type errors.",
  ["value.py", "expr.py"], [("Value operators", "value.py"), ("visitor methods", "expr.py")], (), ["value of an expression", "WizardTypeError"])
p("C18", "Operands are evaluated left to right, exactly once, without shortcut",
  "Every operand, argument and index of an expression is evaluated exactly once, left to right, before the operator or function is applied (both sides of and/or included), each seeing the effects of the ones before it. x++, ++x, x-- and --x store and yield the new value, reading an unset variable yields 0 with the corresponding issue and does not set it, and incrementing an unset variable is a name error.",
  ["programs", "inputs"], "every expression tree with side effects at any of its positions",
  "test_increment_decrement checks single increments; no test has two side effects in one expression.",
  ["expr.py", "contexts/keywords.py"], [("WizardExpressionVisitor", "expr.py")], (), ["order and arguments of function calls", "state.variables"])
p("C19", "String operations and built-in functions return the documented values",
  "Indexing and slicing follow zero-based, negative-from-the-end rules with any of start, end and step omitted (an index out of range is an index error), 'in' tells whether a name is among the sub-packages or the files of a sub-package ('in ...:' ignoring case), and str, int, float, len, lower, startswith, endswith, find and rfind, called as functions or as methods, give the documented result for every argument list, optional arguments included. A missing or surplus argument is a type error.",
  ["inputs"], "all strings, indices, slices, prefixes and argument counts",
  "About thirty fixed expressions; startswith/endswith/find/rfind/lower/float are never called.",
  ["value.py", "functions.py", "expr.py"], [("Value.__getitem__, slice, contains", "value.py"), ("WizardFunctions, wrap_function", "functions.py")], (), ["value of an expression"])
p("C20", "Operator precedence and associativity are those of the Wizard grammar",
  "An expression without parentheses has the value of the same expression fully parenthesised by the grammar's precedence (tightest first: method call, unary minus, not, index and slice, ^, * / %, + -, > >=, < <=, == !=, or, and, in) with binary operators of one level grouped to the left; '|', '&', '!' mean 'or', 'and', 'not'. Parentheses override it.",
  ["inputs"], "every flat sequence of operands and operators",
  "One chain of + and - is tested.",
  ["antlr4/wizardParser.py", "antlr4/wizardLexer.py", "expr.py"], [("left-recursive expr rule", "antlr4/wizardParser.py:expr"), ("visitor dispatch", "expr.py:visitExpr")], (), ["value of an expression"])
p("C21", "A literal denotes its text: escapes decoded, all other characters kept",
  "A quoted string denotes its characters with the recognised escapes (\\n, \\t, \\\\, \\x41, \\u00e9, \\101, ...) replaced, the backslash of any other escape dropped and every other character, non-ASCII included, unchanged. Integer and decimal literals denote their value, and comments and line continuations have no effect.",
  ["inputs"], "every string of characters and escapes in both kinds of quotes",
  "Eleven ASCII literals are tested.",
  ["expr.py", "antlr4/wizardLexer.py"], [("visitString, BAD_ESCAPE_SEQUENCE", "expr.py"), ("string tokens", "antlr4/wizardLexer.py")], (), ["value of a literal"])
p("C22", "Stepping, exec_until and run agree, and runs do not affect each other",
  "Stepping contexts by hand, exec_until with any targets and run() go through the same effects in the same order; exec_until returns the first context of a target type (the start included) or the termination context. Runs are independent: the same script, answers and packages give the same result on a fresh runner, on a reused one after any other runs (failed, aborted or rewound), and with other runners interleaved.",
  ["programs", "histories"], "every script, every set of target types, every sequence and interleaving of runs",
  "Tests reuse a runner a few times but never compare with a fresh one, and exec_until is called twice.",
  ["interpreter.py", "scriptrunner.py", "utils/__init__.py", "state.py"], [("exec_until", "interpreter.py"), ("run", "scriptrunner.py"), ("make_top_level_context", "utils/__init__.py")], (), ["contexts returned", "result of run()"])
p("C23", "A syntax error inside a block only matters if that block is entered",
  "A broken line (a malformed assignment such as 'x .= 3') inside the body of an If, Elif, Else, For or While is confined to that block: if the block is not entered the rest of the script runs as if the block were intact, statements before the block having their full effect either way. If it is entered, the broken line is reported as a parse error through error() and nothing after it runs.",
  ["programs", "inputs"], "every position of a broken line in block bodies and every path through the script",
  "test_recover runs three fixed scripts.",
  ["utils/error_strategy.py", "contexts/contexts.py"], [("WizardErrorStrategy", "utils/error_strategy.py"), ("exec on a context with exception", "contexts/contexts.py:WizardInterpreterContext.exec")], (), ["error() calls", "result of run()"])
p("C24", "A script means the same from a string, stream, text file or path",
  "A script gives the same execution whether passed as a string, an ANTLR input stream, an open text or binary file or a Path, with Unix or Windows line ends, empty and comment-only files included (text beyond ASCII in a file as far as its encoding can be detected).",
  ["inputs", "configurations"], "every script text in every source form",
  "Tests pass strings, and Paths only for scripts that are not in the repository.",
  ["utils/__init__.py"], [("make_parse_wizard_context", "utils/__init__.py")], (), ["result of run()"])
p("C25", "The layered mapping is a view of its parent plus local writes and deletes",
  "A stacked mapping shows its parent's current entries overridden by its own writes and hidden by its own deletions: lookup, membership, iteration and length all agree with that one mapping, deleting a key not visible is a KeyError, a deleted key can be set again, and no operation on a layer ever changes its parent.",
  ["histories"], "every sequence of reads, writes and deletes on any layer of a stack of any depth",
  "There is no test of this class.",
  ["utils/mappings.py"], [("StackMutableMapping", "utils/mappings.py")], [("_variables/_deleted/_parent", "own entries, hidden keys, lower layer", "utils/mappings.py")], ["MutableMapping operations"])
p("C26", "Package and plugin names compare, order and hash case-insensitively",
  "Sub-packages and plugins with the same name up to letter case are equal, hash alike, are neither less nor greater than each other and are found in lists and mappings under any spelling; names order as their case-folded text, comparison with a plain string follows the same rule, and comparison with anything else is a type error. The spelling given first is what is displayed, and the plugins of a sub-package are its .esp, .esm and .esl files without their folder.",
  ["inputs"], "every pair of names in every spelling, and every file list",
  "Two equality comparisons with a string in test_containers.",
  ["value.py"], [("CaseFoldNamedObject", "value.py"), ("SubPackage.is_plugin, plugins", "value.py")], (), ["comparison operators, hash(), str(), SubPackage.plugins()"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
out.write_text("".join(json.dumps(q, ensure_ascii=False) + "\n" for q in P))
print(len(P), "properties")
